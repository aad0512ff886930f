"""Every literal character, brace run and escape of a format is compiled through the macros of the current tree; the pattern
the generated code builds is recovered by abstract interpretation of its MIR and compared, as a language with its capture
groups, with the pattern the format text specifies."""
import engine as E
import families as F

LEVEL = "translation_validation"
FLOOR = {"witness_programs": 300}


def run(rep):
    E.load_facts()
    t = E.THOROUGH
    ws = F.literal_chars(t) + F.literal_pairs(t) + F.runs(t) + F.far_literals() + F.braces() + F.escapes() + F.unescaped(t) + F.derive_formats() + F.neighbours(3, 12, True) + F.spelled(2) + F.spelled(3, 12) + (F.neighbours(4, 30, True) if t else [])
    rep.rules = ["each literal character denotes itself; {{ and }} denote one brace; unescaped formats are inserted as regex"]
    E.run_witnesses("C01", ws, report=rep)
