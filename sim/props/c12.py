"""C12: a Stanford case loads completely and exactly in SI units, or fails."""
from sim.props import c11


class C12(c11.C11):
    ID = "C12"
    KINDS = ["case"]
    ASSUME = ["a blank or white line, a lone carriage return, characters "
              "outside ASCII or text before the first heading make no claim "
              "on whether the file must load",
              "rows that contradict the summary may be refused or loaded as "
              "they are"]


PROP = C12()
