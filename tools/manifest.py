import json,os
T={
"C01":("token-stream monitor over generated queries, independent lexer as oracle","Every execution is compared token by token with the sequence the query was generated from. Trusts svv/q.py (generator AST) and svv/lex.py."),
"C02":("literal monitor over generated queries, independent lexer as oracle","Literals, names, numbers and placeholders of arbitrary content are looked for verbatim, in order, in the output. Trusts svv/lex.py."),
"C03":("metamorphic monitor: format run on its own output","No model involved: the output is formatted again and must not change."),
"C04":("metamorphic monitor: several layouts of one token sequence","The layouts are made by svv/render.py, which must only change what the property allows."),
"C05":("reference pretty-printer as oracle, plus layout rules on the output","Trusts the reference layout of svv/q.py, checked against the repository's tests and documentation."),
"C06":("history and schedule monitor: results compared with those of fresh processes","Histories, hash seeds, threads with a tiny switch interval; each answer is compared with that of a process that did nothing else."),
"C07":("work counters (sys.monitoring events) over growing families of inputs","Counts function calls and lines run inside the package, so the result does not depend on the clock."),
"C08":("consistency monitor over validation answers","Asks each query several times and compares answers, errors and types; planted parse errors must be reported."),
"C09":("reference validator: sound queries by construction","Trusts svv/vgen.py to make sound queries only."),
"C10":("reference validator: planted missing and ambiguous columns","Trusts svv/vgen.py to know which columns are provided."),
"C11":("reference validator: planted positions, LIMIT and OFFSET","Trusts svv/vgen.py; positions and constants are planted at all levels."),
"C12":("reference validator: planted non-boolean conditions","Trusts svv/vgen.py to know the types of operands."),
"C13":("reference validator: planted joins without condition","Trusts svv/vgen.py."),
"C14":("metamorphic monitor: validation of several layouts and of the formatted text","No model of validation involved."),
"C15":("byte-level monitor of rewritten files, file-open event log","Expected bytes come from the pieces the file was generated from; opens for writing are logged by an audit hook."),
"C16":("monitor of rewritten literals: Python's own reading of both files as oracle","The value of each literal is compared with format_sql of the value it had; syntax trees are compared."),
"C17":("trace monitor over sequences of command line runs","Reports of --check-format are compared with what --format then does, byte by byte, with an event log of file opens."),
"C18":("monitor of the command line over files with opt-out comments","Expected outcome per string from the generated position of comments."),
"C19":("monitor of the command line's report against the API's verdicts","Expected lines, counts and exit status are computed from the API's answer for each generated string."),
"C20":("event log of file opens over generated directory trees and input lists","Each file must be opened for reading once, for writing at most once, nothing else; summary totals are recomputed."),
"C22":("monitor of refusals: an independent scanner compares the atoms of input and output","Any text may be given: what comes out, if anything, must hold what went in; part of the texts also go through --format in a file. Trusts svv/strict.py."),
"C23":("metamorphic monitor: names and literals exchanged","No model: a query and the same query with other names are formatted and validated, and compared after the exchange."),
"C24":("metamorphic monitor: a whole compared with its parts formatted alone","The parts are laid out by the code itself; only the way they are put together (svv/checks/c24.py) is stated."),
"C25":("metamorphic monitor: the errors of a whole compared with those of its parts validated alone","No model of validation: only the places (svv/checks/c25.py) are trusted to be sound and to show no columns."),
"C26":("metamorphic monitor: a command line run compared with runs over single files and modes","No model: every result is compared with those of other runs of the code."),
"C27":("fault injection: runs interrupted or killed at the n-th call, file bytes compared with those of undisturbed runs","Each place of interruption is a call or return seen by sys.setprofile; work inside one builtin call is not interrupted."),
"C28":("differential monitor: SQLite compiles and runs the query and the formatted one","The part of SQL that SQLite and sqlvalidator both read; other dialects' constructs are covered by C01 to C05 and C24."),
"C29":("differential monitor: SQLite's name resolution as oracle","Rules on which databases differ are left out, see the statement."),
"C30":("model of the command line as oracle, log of file accesses, exact report","Options are written in full."),
"C21":("fault injection into command line runs, compared with runs without the bad file","Faults of content and raised inside internal calls, at every call seen."),
}
checks=[]
for c in sorted(T):
    if not os.path.exists('/verif/svv/checks/%s.py'%c.lower()): continue
    t,n=T[c]
    checks.append(dict(property=c,quick_cmd="python3 -B run.py %s"%c,thorough_cmd="python3 -B run.py %s thorough"%c,
      evidence_file="evidence/%s.json"%c,technique="runtime monitoring: "+t,level="fault_enumeration" if c in ("C21","C27") else "exploration",level_note=n))
m=dict(version=1,setup_cmd="python3 -B -c \"import sys; sys.path.insert(0, '/repo'); import sqlvalidator\"",checks=checks,
  not_applicable=[dict(property=c,reason="its check is still being built") for c in sorted(T) if not os.path.exists('/verif/svv/checks/%s.py'%c.lower())])
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
