#!/usr/bin/env python3
"""Rewrites the "fixed" list of known_findings.json from /repo's fix commits (the property of each is kept below)."""
import json, subprocess
PROP = """60d7431 C14|e0de7c4 C14|52a8cd9 C14|2742986 C15|15a45df C15|9a160d4 C15|187b05d C15|82be422 C06|32ee01c C06|773c07e C06|29d31e0 C06|4956242 C16|b01f022 C16|72444ba C16|efe60fa C16|ef18951 C16|2da14c0 C16|092d637 C16|682b13d C16|bef38d8 C16|eb27f67 C17|9f77d2f C12|406851b C12|97c89a6 C13|61a394f C13|f785ad8 C12|6fa8c9a C12|c6a5082 C12|210ef39 C12|fddfe26 C12|dd5a75c C12|5c70d92 C12|7d045a2 C13|650aa37 C12|da929c4 C12|366d9d1 C18|568e1c1 C18|17ddfc5 C18|979cabb C18|f2f8368 C19|87be2a9 C19|3ff226e C19|d3549f6 C21|e0c4228 C21|11a195b C21|12db956 C21|09138a0 C20|b84f8c4 C20|9b11907 C20|ec6492a C20|7d3318f C20|332f856 C20|359512f C20|730b751 C20|59c8821 C20|efc5309 C20|25468ca C20|100026d C20|861b9a6 C20|7026bb6 C20|5f16a40 C20|1bc22b7 C20|f8a68ca C07|dd15be1 C10|dd56838 C10|566ad76 C10|d7c604b C10|cc0020d C10|7f3eddb C07|9b0e55d C01|0b44d37 C01|b5660d6 C22|215c9bb C05|bc12d26 C24|b1e2402 C24|1e6213b C23|a09205e C24|39bdcf5 C04|b14cfcc C02|92ff3b4 C04|87d8e44 C03|41996fd C02|024cbe5 C03|ca6d4a3 C04|e91b76e C12|a420307 C02|06be83a C02|f14f229 C11|c69ac81 C11|355960d C11|0dae0c2 C25|64fa8f4 C25|5d72c41 C25|092e050 C25|f0f3eb5 C25|cc2761e C26|f0c40db C26|56eee41 C26|70d2172 C26|1392fbb C26|eb6b4c7 C26|3b8538b C26|1488ecf C26"""
prop = dict(x.split() for x in PROP.split("|"))
path = "/verif/known_findings.json"
d = json.load(open(path))
out = []
for l in subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "e855596..HEAD"], text=True).splitlines():
    h, s = l.split(" ", 1)
    if s.startswith("fix: "):
        assert h in prop, l
        out.append("fixed: property=%s %s %s" % (prop[h], h, s[5:]))
d["fixed"] = out
json.dump(d, open(path, "w"), indent=1)
print(len(out), "fixed,", len(d["findings"]), "findings")
