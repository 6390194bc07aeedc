import syntaxcheck


def run(rep):
    syntaxcheck.run_group(rep, 'C04', 12, 2000, 80)
    rep.explanation = syntaxcheck.EXPL
