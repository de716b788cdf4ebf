"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, subprocess
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
G="property-based testing: "
TECH={
"C01":(G+"random, grammar-derived and mutated texts; invariants on errors, spans and locations, metamorphic shift by ignored text",""),
"C02":(G+"grammar-derived and mutated documents, differential against an independent reference parser",""),
"C03":(G+"grammar-derived and mutated type-system documents, differential against an independent reference parser and resolver",""),
"C04":(G+"generated literals, differential against a reference lexer",""),
"C05":(G+"metamorphic: token sequences under random insertions of ignored text",""),
"C06":(G+"differential between the two configurations and against the reference lexer",""),
"C07":(G+"round trip over generated documents and values",""),
"C08":(G+"round trip over generated schemas, compared through every trait accessor",""),
"C09":(G+"generated schemas with injected faults, differential against a reference resolver",""),
"C10":(G+"generated reference graphs and repeated names, differential against a reference rule",""),
}
import sys
exec(open('/verif/tools/tech_more.py').read()) if __import__('os').path.exists('/verif/tools/tech_more.py') else None
checks=[];na=[]
for p in props:
    i=p['id']
    if i in TECH:
        t,n=TECH[i]
        checks.append({"property":i,"quick_cmd":f"bash check.sh {i} quick","thorough_cmd":f"bash check.sh {i} thorough","technique":t,"level":"exploration",
          "level_note":n or "Generated-input search against an explicit oracle; a pass means no counterexample among the cases counted in the evidence."})
    else:
        na.append({"property":i,"reason":"the check for this property is not built yet"})
json.dump({"version":1,"setup_cmd":"bash check.sh build","checks":checks,"not_applicable":na},open('/verif/MANIFEST.json','w'),indent=1)
print(len(checks),len(na))
