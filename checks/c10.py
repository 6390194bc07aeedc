"""C10: the text is divided into the specified tokens."""
import lexcheck

FLOORS = {'entries': 20, 'exits_checked': 500}
GROUP = ('token',)


def run(rep):
    lexcheck.run(rep, GROUP)
    for k, n in FLOORS.items():
        rep.floor(k, n)
    rep.explanation = ('product of the character-level graph of every entry point of the lexer (all paths, all next characters) '
                       'with the reference automaton of spec/lex.py; not_followed: paths that leave what the automaton specifies')
