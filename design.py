"""Writes DESIGN.md from doc/, properties.jsonl, the check modules and seeded/."""
import ast, json, os

HERE = os.path.dirname(os.path.abspath(__file__))
props={}
for l in open(HERE+'/properties.jsonl'):
    p=json.loads(l); props[p['id']]=p
extra={
"P01":("conjunction of the scripted patterns, per object","unit tests try one random pattern of one selection; here the rejecting-all and accepting-all patterns, every depth of secondaries and every history of patterns on one synth are covered"),
"P02":("each row recomputed from itself by the distribution's own scalar transform; noise recomputed from the RNG answers",""),
"P03":("list comprehension over the patterns",""),
"P04":("the closed range of the definition; for probabilistic selections the measure of accepted RNG answers must be the stated probability, and for two objects the product",""),
"P05":("the event log of the samplers, and their values recomputed from the survey's rows by the same formulae",""),
"P06":("survey of a fresh synth, in this and in other processes with other hash seeds",""),
"P07":("snapshots (deep, by value) of configuration and of all earlier populations",""),
"P08":("a model of the configuration (slots, samplers, luminosity source) from which a fresh synth is put together",""),
"P09":("the dictionary and surveys of the original; the specification it was built from; for hand-written variants the documented meaning",""),
"P10":("the population stored; model of path -> group -> population",""),
"P11":("rows of the parent",""),
"P12":("rows of the population",""),
"P13":("the same operations on two plain arrays (observed, latent) and an untouched selection",""),
"P14":("a table of declarations and a dictionary of values per object",""),
"P15":("product, object by object, of scalar densities of fresh distributions with unit normalization; quadrature for the integral",""),
"P16":("node and edge sets written down from the configuration",""),
"P17":("one level and one flag per log; observed by emitting at each level",""),
"P18":("file absent or complete after every step; settings at the end",""),
"P19":("closed forms and quadrature",""),
"P20":("uniform measure on the sphere; definitions of the angles",""),
"P21":("declared density x independently computed volume / time adjustment, integrated cell by cell; Poisson probabilities",""),
"P22":("numerical integration of the Friedmann equation; stated geometry",""),
"P23":("the population's columns, compared with what matplotlib artists and ipyvolume scatters hold; displayed text parsed",""),
"P24":("the same synth built by hand from a table",""),
"P25":("closed-form distributions",""),
"P26":("plain Python abstract classes of the same shape; a model of the names; a provided class called inside the overriding one",""),
"P27":("the declared defaults of P14's table and an interpreter of dictionaries of its own, which builds by hand; cycles by repeated removal of leaves",""),
}
out=[]
for i in range(1,28):
    k=f"P{i:02}"; t=ast.parse(open(f'{HERE}/mc/p{i:02}.py').read())
    doc=ast.get_docstring(t); body=doc.split("\n\n",1)[1].replace("\n"," ") if "\n\n" in doc else doc
    d={}
    for n in t.body:
        if isinstance(n,ast.Assign) and getattr(n.targets[0],'id',None) in ('BOUNDS','ASSUMPTIONS','TECHNIQUE'):
            d[n.targets[0].id]=ast.literal_eval(n.value)
    out.append(f"### {k} {props[k]['title']}\n\n{body}\n\n- Oracle: {extra[k][0]}.\n- Bounds, quick: {d['BOUNDS']['quick']}.\n- Bounds, thorough: {d['BOUNDS']['thorough']}.\n"+("".join(f"- Assumption: {a}.\n" for a in d.get('ASSUMPTIONS',[])))+(f"- {extra[k][1]}.\n" if extra[k][1] else ""))

rows = []
for n in sorted(os.listdir(HERE + "/seeded")):
    m = json.load(open(f"{HERE}/seeded/{n}/meta.json"))
    rows.append(f"| {n} | {m['property']} | {m['needs']} | {m['property']} |")
head, tail = (open(f"{HERE}/doc/{f}.md").read() for f in ("head", "tail"))
mut = open(f"{HERE}/doc/mutation.md").read() if os.path.exists(f"{HERE}/doc/mutation.md") else "(to come)"
open(HERE + "/DESIGN.md", "w").write(head + "\n".join(out) + tail.replace("@SEEDED@", "\n".join(rows)).replace("@MUTATION@", mut))
