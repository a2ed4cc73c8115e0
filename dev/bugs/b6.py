BUGS = {
"c40-all-missing": dict(prop="C40", edits=[("__init__.py", """    "CoppersmithBommer2014",
    "DerrasBardCotton2014",
""", """    "CoppersmithBommer2014, DerrasBardCotton2014",
""")], demo="""
import pygmm
for n in ("CoppersmithBommer2014", "DerrasBardCotton2014"):
    assert n in pygmm.__all__, n
""", needs="a star import, or documentation tools that follow __all__",
what="two models are missing from __all__, and the star import fails"),
"c40-abbrev-copied": dict(prop="C40", edits=[("abrahamson_bhasin_2020.py", """    ABBREV = "AB20"
""", """    ABBREV = "AB06"
""")], demo="""
import pygmm
assert pygmm.AbrahamsonBhasin2020.ABBREV != pygmm.AtkinsonBoore2006.ABBREV
""", needs="results of both models kept by their abbreviation",
what="two models share an abbreviation, so that one overwrites the other's entry"),
}
