"""The command line (C15, C16)."""
import sys

from md_toc.cli import CliInterface, CliToApi
from pyvc.contract import (BOOL, INST, INT, OPTSTR, STR, STRS, Kind, OneOf,
                           contract, symbolic)
from pyvc.values import PyObj
from pyvc.spec import act, become, given, initial, rec, world

from .fences import PARSER
from .files import same_toc, write_all
from .toc import tocs_view

ARGS = INST(None, filename=STRS, ordered_list_marker=OPTSTR,
            unordered_list_marker=OPTSTR, newline_string=STR, no_links=BOOL,
            no_indentation=BOOL, no_list_coherence=BOOL, header_levels=INT,
            parser=OneOf(*PARSER.vals), skip_lines=INT,
            constant_ordered_list=BOOL, in_place=BOOL, toc_marker=STR,
            diff=BOOL)


def parsed(self, args):
    """What the argument parser guarantees."""
    return (args.header_levels >= 1
            and (args.ordered_list_marker is not None
                 or args.unordered_list_marker is not None))


def newline_of(s):
    if s == '\\n':
        return '\n'
    if s == '\\r':
        return '\r'
    if s == '\\r\\n':
        return '\r\n'
    return s


@rec('world')
def printed(w, tocs, k):
    """The world after the first k TOCs were printed."""
    if k <= 0:
        return w
    become(printed(w, tocs, k - 1))
    act('print', tocs[k - 1])
    return world()


@rec('bool')
def all_same(w, filenames, tocs, marker, diff, k):
    """The first k files have their TOCs."""
    if k <= 0:
        return True
    return all_same(w, filenames, tocs, marker, diff, k - 1) and (
        not diff or same_toc(printed(w, tocs, k), filenames[k - 1],
                             tocs[k - 1], marker))


def inv_printed(counter: 'int', toc_struct: 'list', equal: 'bool', arg_args):
    n = counter
    return (0 <= n and n <= len(toc_struct)
            and world() == printed(initial(), toc_struct, n)
            and equal == all_same(initial(), arg_args.filename, toc_struct,
                                  arg_args.toc_marker, arg_args.diff, n))


@contract('md_toc.cli.CliToApi.write_toc',
          dict(self=INST(CliToApi), args=ARGS),
          requires=parsed, mutates=(), unfold=2, invariants=[inv_printed],
          config=dict(gen=False))
def command(self, args):
    o = args.ordered_list_marker
    m = args.unordered_list_marker if o is None else o
    newline = newline_of(args.newline_string)
    tocs = tocs_view(args.filename, o is not None, args.no_links,
                     args.no_indentation, args.no_list_coherence,
                     args.header_levels, args.parser, m, args.skip_lines,
                     args.constant_ordered_list, newline)
    if args.in_place:
        same = write_all(args.filename, tocs, args.toc_marker, newline)
    else:
        n = len(tocs)
        w = world()
        same = all_same(w, args.filename, tocs, args.toc_marker, args.diff,
                        n)
        become(printed(w, tocs, n))
    return args.diff and not same


# ------------------------------------------------- assumed: the argument parser
class Arguments:

    def parse_args(self):
        return given()


@contract('md_toc.cli.CliInterface.create_parser',
          dict(self=INST(CliInterface)),
          trusted='a valid command line gives the options, with the function '
          'that writes the TOCs')
def create_parser(self):
    return Arguments()


def run(args):
    return CliToApi().write_toc(args)


def options(ip, env, st):
    ip.given = symbolic(ip, ARGS, 'given', st)
    st.obj(ip.given).fields['func'] = PyObj(run)
    ip.assume(st, ip.formula(parsed, [None, ip.given], st))


@contract('md_toc.__main__.main', dict(args=Kind('const', val=None)),
          setup=options, unfold=2, config=dict(gen=False, soft=True))
def main(args):
    try:
        code = 128 if command(None, given()) else 0
    except Exception:
        code = 1
    sys.exit(code)
