#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(10000)
from vk import report
from gen import dprops, dprops2, dprops3, cprops, c07, c08, c09, c10, c12, c13, d12, d13, d14, d15
CHECKS = {p: dprops.check for p in dprops.PROPS}
CHECKS.update(dprops2.CHECKS)
CHECKS.update(dprops3.CHECKS)
CHECKS.update(cprops.CHECKS)
CHECKS.update(c07.CHECKS)
CHECKS.update(c08.CHECKS)
CHECKS.update(c09.CHECKS)
CHECKS.update(c10.CHECKS)
CHECKS.update(c12.CHECKS)
CHECKS.update(c13.CHECKS)
CHECKS.update(d12.CHECKS)
CHECKS.update(d13.CHECKS)
CHECKS.update(d14.CHECKS)
CHECKS.update(d15.CHECKS)
EXP = " Exploration, every case fixed by VERIF_SEED; says nothing about shapes outside the generated grammar."
NOTES = {
    "C07": ("generated trait lists, bounds and bodies, compared with a boxed reference", "Generated functions and lets with `impl Trait` in many places are compiled with type_analysis and without arguments, and compared in behaviour with a reference." + EXP),
    "C08": ("generated misuse with a well-formed twin, and random syntax and argument tokens under both attributes, judged by rustc's diagnostics",
            "Thousands of misuse pairs (the misuse must be reported by the attribute on its line, the twin must compile) and of random inputs (no panic, no compiler crash, errors only within the annotated code) per quick run." + EXP),
    "C09": ("generated functions recorded before and after the expansion by a second attribute macro; syntax trees compared after erasing what the attribute may add",
            "Thousands of random syntactically valid functions, methods and lets per quick run; erased expansions must equal the input." + EXP),
    "C11": ("generated placements and function forms, differential against a boxed reference under generated decision scripts", "The same generated body is placed in many function forms and attribute positions and compared in behaviour with the boxed reference." + EXP),
}
NOTES["D12"] = ("generated trait lists on generated enums; which traits the enum has is asked of the compiler; ordinary derives compared with the same derives on a plain copy",
                "Hundreds of lists per quick run, each queried for every trait of its feature group, listed or not." + EXP)
NOTES["D13"] = ("generated enums and generated user-written Unpin and Drop implementations, each compiled with and without the attribute and the pinning traits",
                "A thousand enums per quick run; rustc's coherence errors and its answers about Unpin are compared with those for the plain enum." + EXP)
NOTES["C12"] = ("generated programs and enum definitions compiled with every lint on, with and without the attribute, and rustc's warnings compared by lint and place",
                "rustc itself is the oracle: the same generated line is compiled with the attribute and with the attribute replaced by spaces (or, for programs with several types, boxed), and the two sets of warnings are compared.")
NOTES["C13"] = ("generated annotated items expanded by rustc repeatedly: in other processes, orders, places, crates and layouts; the expansions compared",
                "Hundreds of random items per quick run, each expanded in four files or more; all expansions of an item must be the same text, and no generated enum may be in the scope of another one of its name.")
NOTES["D15"] = ("generated enum definitions recorded before and after the attribute and compared as syntax trees; generated generic enums and type arguments, for which the compiler is asked whom the impls apply to",
                "Thousands of definitions and of (enum, arguments, trait) questions per quick run; for each question the answer for the enum is compared with those for its fields." + EXP)

NOTES["D14"] = ("generated feature sets, each built and asked about every trait name; oracle: the documented table of names and features, plus driven behaviour of random programs under the sampled sets",
                "About 40 feature sets per quick run (all single features, complements and random subsets); per set every trait name is probed once enabled or disabled, and random enums are driven under some of them; a no_std probe crate per std-less set." + EXP)

NOTES["C10"] = ("generated enums and auto_enum uses placed among generated hostile names; driven operation histories compared with the bare value, known results for auto_enum",
                "Hundreds of enums and auto_enum uses per quick run, each among up to ~250 names of the prelude, the traits and their crates redefined as types, traits with competing methods, modules, functions, constants or macros." + EXP)


def setup(rep):
    """Builds what most checks share, to see that it builds at all."""
    from vk import build
    build.cargo_build("all", build.ALL_FEATURES)
    build.spy()
if __name__ == "__main__":
    if sys.argv[1:2] == ["setup"]:
        setup(None)
    else:
        report.main(CHECKS)
