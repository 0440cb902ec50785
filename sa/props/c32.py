"""C32: text utilities and the cross-section library."""
from ref import *

TITLE = "Text utilities parse what the user wrote, completely and exactly"
EXPLANATION = (
    "The list, brace and range functions, the comment scrubber and the library reader are compared with reference definitions: "
    "which characters and records are taken, in which order, where they are stored and which text is refused.")


def check(ck):
    specs(ck, "c32")
    like(ck, "lists", "every value of a list is returned in order, and text that is not a value is refused",
         [("explode_string", {"ref": "fn__explode_int", "pick": lambda f: "int" in f.rt}),
          ("explode_string", {"ref": "fn__explode_real", "pick": lambda f: "int" not in f.rt})])
    like(ck, "braces", "braced and bare values are returned in order, and unmatched, nested or empty braces are refused",
         ["explode_braces"], opaque=("explode_string",))
    like(ck, "ranges", "the text of a set of numbers names each run of them", ["print_range"])
    like(ck, "trim", "blank space around the text is removed and nothing else", ["ltrim", "rtrim", "trim", "sanitize"])
    like(ck, "scrub", "comments and blank lines are removed and nothing else",
         ["FileScrubber::getline", "FileScrubber::FileScrubber@2"], opaque=("trim",))
    like(ck, "library", "every group, row and name of the library is read in order, and malformed ones are refused",
         [("MaterialLib::MaterialLib", {"ref": "MaterialLib__ctor_xml", "pick": lambda f: len(f.p) == 1 and "xml" in f.p[0]["t"]}),
          ("MaterialLib::MaterialLib", {"ref": "MaterialLib__ctor_file", "pick": lambda f: len(f.p) == 1 and "Scrubber" in f.p[0]["t"]}),
          "MaterialLib::assignID"], opaque=("getline", "explode_string", "Material::Material", "assignID"))
