#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md from seeded/*/meta.json."""
import json,os
R=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','seeded')
for d in sorted(os.listdir(R)):
    m=json.load(open(os.path.join(R,d,'meta.json')))
    print(f"| {d} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
