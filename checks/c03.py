import syntaxcheck


def run(rep):
    syntaxcheck.run_group(rep, 'C03', 15, 3000, 300)
    rep.explanation = syntaxcheck.EXPL
