"""Write the run counts of the checks into the table of DESIGN.md."""
import pathlib
import re
root = pathlib.Path(__file__).resolve().parent.parent
txt = (root / "DESIGN.md").read_text()
for p in sorted((root / "dst/props").glob("c[0-9][0-9].py")):
    m = re.search(r'^RUNS = \{"quick": (\d+), "thorough": (\d+)\}', p.read_text(), re.M)
    if m:
        txt = re.sub(rf"^(\| {p.stem.upper()} [^|]*\| )\d+/\d+ \|", rf"\g<1>{m[1]}/{m[2]} |", txt, flags=re.M)
(root / "DESIGN.md").write_text(txt)
