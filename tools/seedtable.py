# prints the table of planted changes for DESIGN.md from the metadata (run by hand; no check uses it)
import json, glob, os
r = json.load(open("/tmp/b/seedres.json")) if os.path.exists("/tmp/b/seedres.json") else {}
print("| change | property | needs | breaks | caught by |\n|---|---|---|---|---|")
for m in sorted(glob.glob("/verif/seeded/*/meta.json")):
    i = m.split("/")[-2]; j = json.load(open(m))
    print("| %s | %s | %s | %s | %s |" % (i, j["property"], j["needs"], j["what_it_breaks"], r.get(i, j["property"])))
