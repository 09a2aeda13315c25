#!/usr/bin/env python3
"""Turns the documentation's option tables into harness/options_table.inc (committed; run by hand)."""
import csv, re, io, sys
SRC = "/repo/doc/C/options/all_table.rst"
rows = []
title = None
for l in open(SRC):
    m = re.match(r"\.\. csv-table:: (.*)", l)
    if m:
        title = m.group(1)
        continue
    if l.startswith('   "') and title:
        r = next(csv.reader(io.StringIO(l.strip()), skipinitialspace=True, escapechar="~"))
        rows.append((title, [x for x in r]))

H = [("Approximat", "da_handle_approx_nn"), ("Linear Mod", "da_handle_linmod"), ("Kernel Pri", "da_handle_kernel_pca"), ("Principal", "da_handle_pca"), ("k-means", "da_handle_kmeans"), ("DBSCAN", "da_handle_dbscan"),
     ("Decision T", "da_handle_decision_tree"), ("Decision F", "da_handle_decision_forest"), ("Nonlinear", "da_handle_nlls"),
     ("Nearest Ne", "da_handle_nn"), ("Support Ve", "da_handle_svm"), ("Interpolat", "da_handle_interpolation"),
     ("Approximat", "da_handle_approx_nn"), ("t-SNE", "da_handle_tsne"), ("cpp:type", "DATASTORE")]
OP = {r"\le": 2, "<": 1}


def num(s):
    m = re.fullmatch(r"10\^\{?(-?\d+)\}?", s)
    return float("1e" + m.group(1)) if m else float(s)


with open("/verif/harness/options_table.inc", "w") as f:
    for t, r in rows:
        h = next(e for k, e in H if k in t[t.index("ptions") + 6:])
        name, ty, d, c = r[0], r[1][0], r[2], r[4]
        labels, lo, lot, hi, hit = "", 0, 0, 0, 0
        if ty == "s":
            labels = "|".join(re.findall(r"`([^`:]+)`", c.split(":math:`s=`")[1])) if "s=" in c else ""
            d = d[len(":math:`s=` `"):-1].replace("\\\\", "\\") if "s=" in d else ""
        else:
            m = re.fullmatch(r":math:`(.*)`", c)
            if m:
                k = m.group(1).split(" ")
                i = k.index(ty)
                if i:
                    lo, lot = num(k[i - 2]), OP[k[i - 1]]
                if i + 1 < len(k):
                    hit, hi = OP[k[i + 1]], num(k[i + 2])
            d = re.fullmatch(r":math:`[ir]=(.*)`", d).group(1)
            try:
                d = repr(num(d.replace("\\infty", "2147483647")))
            except ValueError:
                d = "?"
        if h == "da_handle_nlls" and name == "optim method":
            d = "ralfit"  # the handle selects its only solver when it is made
        f.write('{%s, "%s", \'%s\', %r, %d, %r, %d, "%s", "%s"},\n' % (h, name, ty, float(lo), lot, float(hi), hit, labels, d.replace("\\", "\\\\").replace('"', '\\"')))
