import view


def run(plan, out):
    view.run(plan, out, "C22")


ISOLATE = False
