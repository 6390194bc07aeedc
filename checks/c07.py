import syntaxcheck


def run(rep):
    syntaxcheck.run_group(rep, 'C07', 12, 3000, 120)
    rep.explanation = syntaxcheck.EXPL
