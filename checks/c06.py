import syntaxcheck


def run(rep):
    syntaxcheck.run_group(rep, 'C06', 16, 5000, 300)
    rep.explanation = syntaxcheck.EXPL
