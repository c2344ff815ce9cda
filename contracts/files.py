"""The TOC in a file: finding, comparing and replacing it (C13-C15, C20)."""
import re

from md_toc.exceptions import StdinIsNotAFileToBeWritten
from pyvc.contract import BOOL, ENUM, INT, STR, STRS, contract
from pyvc.spec import (act, become, doc_of, document, implies, initial, line_at, mark,
                       marks, nlines, nspan, numbered, opaque, reads, rec,
                       text_of, world)


# --------------------------------------------- assumed: fpyutils.filelines
def whole_file(input_file, pattern, max_occurrencies, loose_matching,
               keep_all_lines):
    return max_occurrencies == 0 and loose_matching and keep_all_lines


@contract('fpyutils.filelines.get_line_matches',
          dict(input_file=STR, pattern=STR, max_occurrencies=INT,
               loose_matching=BOOL, keep_all_lines=BOOL),
          requires=whole_file,
          trusted='numbers of the lines that are the pattern between blanks, '
          'and the text of the file')
def matches(input_file, pattern, max_occurrencies, loose_matching,
            keep_all_lines):
    d = document(input_file)
    return (numbered(marks(d, pattern), lambda k: mark(d, pattern, k)),
            text_of(d))


@contract('fpyutils.filelines.remove_line_interval',
          dict(input_file=STR, delete_line_from=INT, delete_line_to=INT,
               output_file=STR),
          trusted='writes the lines of a file that are not in an interval')
def remove_lines(input_file, delete_line_from, delete_line_to, output_file):
    act('remove lines', input_file, delete_line_from, delete_line_to,
        output_file)


@contract('fpyutils.filelines.insert_string_at_line',
          dict(input_file=STR, string_to_be_inserted=STR,
               put_at_line_number=INT, output_file=STR, append=BOOL,
               newline_character=STR),
          trusted='writes the lines of a file with a text before or after a '
          'line')
def insert_text(input_file, string_to_be_inserted, put_at_line_number,
                output_file, append, newline_character):
    act('insert', input_file, string_to_be_inserted, put_at_line_number,
        output_file, append, newline_character)


# ------------------------------------------------------- lines of a text
@rec('int')
def newlines(t, i):
    """Newlines before position i."""
    if i <= 0:
        return 0
    return newlines(t, i - 1) + (1 if t[i - 1] == '\n' else 0)


@rec('str')
def picked(t, i, a, b):
    """Characters before position i in the lines a to b."""
    if i <= 0:
        return ''
    p = picked(t, i - 1, a, b)
    k = 1 + newlines(t, i - 1)
    if t[i - 1] != '\n' and a <= k and k <= b:
        return p + t[i - 1]
    return p


@opaque('str')
def interval(t, a, b):
    """The lines a to b of a text without their newlines."""
    if a > b or a < 1:
        return ''
    return picked(t, len(t), a, b)


def plain(lines, start, end):
    return nspan(lines, 0, '\r') == len(lines)


def inv_interval(lines: 'str', i: 'int', line_counter: 'int',
                 arg_start, arg_end):
    return (0 <= i and i <= len(lines) + 1
            and implies(i <= len(lines),
                        line_counter == 1 + newlines(lines, i)))


def inv_picked(lines: 'str', i: 'int', final_line: 'joined', arg_start,
               arg_end):
    return (implies(i <= len(lines),
                    final_line == picked(lines, i, arg_start, arg_end))
            and implies(i > len(lines),
                        final_line == picked(lines, len(lines), arg_start,
                                             arg_end)))


def inv_going(lines: 'str', i: 'int', done: 'bool', arg_start, arg_end):
    return done == (i > len(lines) or arg_start > arg_end or arg_start < 1)


def inv_nothing(final_line: 'joined', arg_start, arg_end):
    return implies(arg_start > arg_end or arg_start < 1, final_line == '')


def inv_within(lines: 'str', i: 'int'):
    return 0 <= i and i <= len(lines)


@contract('md_toc.generic._read_line_interval',
          dict(lines=STR, start=INT, end=INT),
          requires=plain, reveal=('interval', ), config=dict(gen=False),
          invariants=[inv_interval, inv_picked, inv_going, inv_nothing,
                      inv_within])
def line_interval(lines, start, end):
    return interval(lines, start, end)


@opaque('bool')
def is_blank(t):
    """Nothing but blanks."""
    return re.fullmatch(r'(\r\n|[\r\v \t]|\n(?!\r))*', t) is not None


@opaque('bool')
def is_list(t):
    """Up to three spaces, a list marker, a space, and nothing or a text that
    does not start with a blank."""
    return re.fullmatch(r' ? ? ?([-+*]|\d+[.)]) ([^ \t\v\n][^\n]*)?',
                        t) is not None


@contract('md_toc.generic._string_empty', dict(lines=STR),
          reveal=('is_blank', ), config=dict(soft=True))
def string_empty(lines):
    return is_blank(lines)


@contract('md_toc.generic._detect_toc_list', dict(line=STR),
          reveal=('is_list', ), config=dict(soft=True))
def detect_list(line):
    return is_list(line)


# ------------------------------------------------------------ existing TOC
@rec('str')
def part(d, a, b, k):
    """The lines a to b that are among the first k ones."""
    if k <= 0:
        return ''
    t = part(d, a, b, k - 1)
    return t + line_at(d, k - 1) if a <= k and k <= b else t


def encloses(d, marker, k):
    """The markers k and k + 1 enclose a TOC or blanks."""
    a, b = mark(d, marker, k), mark(d, marker, k + 1)
    t = text_of(d)
    return is_list(interval(t, a + 2, b - 2)) or is_blank(
        interval(t, a + 1, b - 1))


@rec('int', sticky='k')
def found(d, marker, k):
    """The first pair of markers, before marker k, that encloses a TOC or
    blanks; 0 if none does."""
    if k <= 1:
        return 0
    f = found(d, marker, k - 1)
    if f != 0:
        return f
    return k - 1 if encloses(d, marker, k - 1) else 0


def between(d, marker, k):
    """What the markers k and k + 1 enclose."""
    a, b = mark(d, marker, k), mark(d, marker, k + 1)
    if a + 1 <= b - 1:
        return part(d, a + 1, b - 1, nlines(d)).strip()
    return ''


def old_toc_of(d, marker):
    n = marks(d, marker)
    if n == 1:
        return marker
    if n < 2:
        return ''
    j = found(d, marker, n)
    if j != 0:
        return between(d, marker, j)
    return ''


# skipping to the markers
def inv_pairs(first_marker: 'int', marker_line_positions_length: 'int',
              two_or_more_markers: 'bool', arg_filename, arg_marker):
    d = document(arg_filename)
    n = marks(d, arg_marker)
    k = first_marker
    return (k >= 1 and marker_line_positions_length == n - k + 1
            and implies(n >= 1, k <= n) and implies(n == 0, k == 1)
            and two_or_more_markers == (k > 1)
            and found(d, arg_marker, k) == 0)


def inv_pair(counter: 'int', arg_filename, arg_marker):
    return counter >= 0 and found(document(arg_filename), arg_marker,
                                  counter + 1) == 0


def inv_left(counter: 'int', marker_line_positions_length: 'int',
             arg_filename, arg_marker):
    n = marks(document(arg_filename), arg_marker)
    return marker_line_positions_length == n - counter


def inv_second(first_marker: 'int', second_marker: 'int'):
    return second_marker == first_marker + 1


def inv_lines(f: 'file', line: 'str', line_counter: 'int'):
    d = doc_of(f)
    return (reads(f) == line_counter and line_counter >= 1
            and line_counter <= nlines(d) + 1
            and line == line_at(d, line_counter - 1))


def inv_part(f: 'file', lines: 'joined', start: 'int', end: 'int'):
    return lines == part(doc_of(f), start, end, reads(f) - 1)


FILE_INVARIANTS = [inv_pairs, inv_pair, inv_left, inv_second, inv_lines, inv_part]


def unix(s):
    return s.replace('\r\n', '\n').replace('\r', '\n')


# what callers rely on
@opaque('bool')
def same_toc(w, filename, string, marker):
    """The file has the TOC already."""
    become(w)
    return unix(string).strip() == old_toc_of(document(filename), marker)


@opaque('world')
def rewritten(w, filename, string, marker, newline_string):
    """The world after writing a TOC into a file."""
    become(w)
    if filename != '-':
        write(filename, string, marker, newline_string)
    return world()


def equal_view(current_toc, filename, marker):
    return same_toc(world(), filename, current_toc, marker)


def write_view(filename, string, marker, newline_string):
    if filename == '-':
        raise StdinIsNotAFileToBeWritten
    same = same_toc(world(), filename, string, marker)
    become(rewritten(world(), filename, string, marker, newline_string))
    return same


@contract('md_toc.api.tocs_equal',
          dict(current_toc=STR, filename=STR, marker=STR),
          invariants=FILE_INVARIANTS, config=dict(gen=False),
          view=equal_view, view_reveal=('same_toc', ))
def equal_toc(current_toc, filename, marker):
    return unix(current_toc).strip() == old_toc_of(document(filename), marker)


@contract('md_toc.api.write_string_on_file_between_markers',
          dict(filename=STR, string=STR, marker=STR, newline_string=STR),
          view=write_view, view_reveal=('same_toc', 'rewritten'),
          invariants=FILE_INVARIANTS, config=dict(gen=False))
def write(filename, string, marker, newline_string):
    """Replaces the first block of markers, or the marker, by the new
    block."""
    if filename == '-':
        raise StdinIsNotAFileToBeWritten
    s = unix(string)
    block = marker + '\n\n' + s.rstrip() + '\n\n' + marker + '\n'
    d = document(filename)
    n = marks(d, marker)
    same = s.strip() == old_toc_of(d, marker)
    if n == 0:
        return same
    if n == 1:
        a = mark(d, marker, 1)
        remove_lines(filename, a, a, filename)
        insert_text(filename, block, a, filename, False, newline_string)
        return same
    j = found(d, marker, n)
    if j == 0:
        insert_text(filename, block, mark(d, marker, 1), filename, False,
                    newline_string)
        return same
    a, b = mark(d, marker, j), mark(d, marker, j + 1)
    remove_lines(filename, a, b, filename)
    insert_text(filename, block, a, filename, False, newline_string)
    return same


# ------------------------------------------------------------ several files
@rec('int', sticky='k')
def stdin_at(filenames, k):
    """Number of the first of k file names that is the standard input."""
    if k <= 0:
        return 0
    f = stdin_at(filenames, k - 1)
    if f != 0:
        return f
    return k if filenames[k - 1] == '-' else 0


@rec('world')
def written(w, filenames, strings, marker, newline_string, k):
    """The world after the TOCs of the first k files were written."""
    if k <= 0:
        return w
    return rewritten(
        written(w, filenames, strings, marker, newline_string, k - 1),
        filenames[k - 1], strings[k - 1], marker, newline_string)


@rec('bool')
def unchanged(w, filenames, strings, marker, newline_string, k):
    """The first k files had their TOCs already."""
    if k <= 0:
        return True
    return unchanged(w, filenames, strings, marker, newline_string,
                     k - 1) and same_toc(
        written(w, filenames, strings, marker, newline_string, k - 1),
        filenames[k - 1], strings[k - 1], marker)


def inv_index(counter: 'int', file_id: 'int'):
    return counter == file_id


def inv_files(counter: 'int', arg_filenames, arg_strings, arg_marker,
              arg_newline_string):
    return (counter >= 0 and counter <= len(arg_filenames)
            and stdin_at(arg_filenames, counter) == 0
            and (counter == len(arg_filenames)
                 or stdin_at(arg_filenames, counter + 1) in (0, counter + 1))
            and world() == written(initial(), arg_filenames, arg_strings,
                                   arg_marker, arg_newline_string, counter))


def inv_equal(counter: 'int', equal: 'bool', arg_filenames, arg_strings,
              arg_marker, arg_newline_string):
    return equal == unchanged(initial(), arg_filenames, arg_strings,
                              arg_marker, arg_newline_string, counter)


@contract('md_toc.api.write_strings_on_files_between_markers',
          dict(filenames=STRS, strings=STRS, marker=STR, newline_string=STR),
          invariants=[inv_index, inv_files, inv_equal], config=dict(gen=False))
def write_all(filenames, strings, marker, newline_string):
    n = len(filenames)
    if n != len(strings):
        raise ValueError
    w = world()
    e = stdin_at(filenames, n)
    if e != 0:
        become(written(w, filenames, strings, marker, newline_string, e - 1))
        raise StdinIsNotAFileToBeWritten
    become(written(w, filenames, strings, marker, newline_string, n))
    return unchanged(w, filenames, strings, marker, newline_string, n)
