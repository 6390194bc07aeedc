import syntaxcheck


def run(rep):
    syntaxcheck.run_group(rep, 'C05', 19, 800, 200)
    rep.explanation = syntaxcheck.EXPL
