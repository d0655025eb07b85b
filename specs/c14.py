"""No undefined shifts: every shift amount is below the width of the shifted type."""
import c13

FLAGS = ['-fsanitize=shift-exponent', '-fsanitize-trap=shift-exponent']


def entries(tier):
    return c13.entries_for(FLAGS, tier) + c13.inout(FLAGS, tier)


def check(tier):
    return c13.run('C14', entries(tier), tier, 'functions whose shift amounts were examined',
                   c13.EXPL.replace("the standard library's subscript assertions", 'a range assertion on every shift amount'))
