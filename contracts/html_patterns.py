"""Patterns of the raw HTML of a heading, as documented by the GFM and
CommonMark specifications (a copy: the constants of the code are checked
against it)."""
GITHUB = (
    # OT
    '<(?!(\\b[tT][iI][tT][lL][eE]\\b|\\b[tT][eE][xX][tT][aA][rR][eE]'
    '[aA]\\b|\\b[sS][tT][yY][lL][eE]\\b|\\b[xX][mM][pP]\\b|\\b[iI][fF]['
    'rR][aA][mM][eE]\\b|\\b[nN][oO][eE][mM][bB][eE][dD]\\b|\\b[nN][oO'
    '][fF][rR][aA][mM][eE][sS]\\b|\\b[sS][cC][rR][iI][pP][tT]\\b|\\b['
    'pP][lL][aA][iI][nN][tT][eE][xX][tT]\\b))([A-Za-z][A-Za-z0-9-]'
    '*)(( |\t|\n|\x0b|\x0c|\r)+([a-zA-Z_:][a-zA-Z0-9:._-]*)(([ \t\x0b\x0c\r\n])*[=]'
    '([ \t\x0b\x0c\r\n])*(([^ \t\r\n\x0b\x0c"\'=<>`\x00]+)|([\'][^\'\x00]*[\'])|(["][^"\x00]*["]'
    ')))?)*(( |\t|\n|\x0b|\x0c|\r))*(/)?>',
    # CT
    '</(?!(\\b[tT][iI][tT][lL][eE]\\b|\\b[tT][eE][xX][tT][aA][rR][eE'
    '][aA]\\b|\\b[sS][tT][yY][lL][eE]\\b|\\b[xX][mM][pP]\\b|\\b[iI][fF]'
    '[rR][aA][mM][eE]\\b|\\b[nN][oO][eE][mM][bB][eE][dD]\\b|\\b[nN][o'
    'O][fF][rR][aA][mM][eE][sS]\\b|\\b[sS][cC][rR][iI][pP][tT]\\b|\\b'
    '[pP][lL][aA][iI][nN][tT][eE][xX][tT]\\b))([A-Za-z][A-Za-z0-9-'
    ']*)( |\t|\n|\x0b|\x0c|\r)?>',
    # CO
    '<!--((?!>|->)(?:(?!--).))+(?!-).?-->',
    # PI
    '<\\?(?:(?!\\?>).)*\\?>',
    # DE
    '<![A-Z]+( |\t|\n|\x0b|\x0c|\r)+(?:(?!>).)+>',
    # CD
    '<!\\[CDATA\\[(?:(?!\\]\\]>).)+\\]\\]>',
)
CMARK = (
    # OT
    '<([A-Za-z][A-Za-z0-9-]*)(([\t ]+|(\n|\r|\r\n){1,1})([a-zA-Z_:][a-'
    'zA-Z0-9:._-]*)(([ \t\x0b\x0c\r\n])*[=]([ \t\x0b\x0c\r\n])*(([^ \t\r\n\x0b\x0c"\'=<>`\x00]+)'
    '|([\'][^\'\x00]*[\'])|(["][^"\x00]*["])))?)*([\t ]*|(\n|\r|\r\n)?)(/)?>',
    # CT
    '</([A-Za-z][A-Za-z0-9-]*)([\t ]*|(\n|\r|\r\n)?)>',
    # CO
    '<!--((?!>|->)(?:(?!--).))+(?!-).?-->',
    # PI
    '<\\?(?:(?!\\?>).)*\\?>',
    # DE
    '<![A-Z]+(?:(?!>).)+>',
    # CD
    '<!\\[CDATA\\[(?:(?!\\]\\]>).)+\\]\\]>',
)
