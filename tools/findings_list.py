import json,subprocess
F=[]
def f(prop,what,sql,**k): F.append(dict(property=prop,what=what,sql=sql,**k))
f("C08","LEFT as function in ON makes the validation fail","select a from t join u on left(a, 2) = b")
f("C09","CURRENT_DATE without brackets is taken for a column in a query without FROM","select current_date")
f("C09","a bare date part as argument of a call is taken for a column","select date_diff(a, a, day) from (select a from t)")
f("C09","a literal with a type name before it is refused in a query without FROM","select timestamp '2020-01-01'")
f("C09","a join without condition that is completed by a second ON is refused","select * from a join b join c on b.x = c.x on a.x = b.x")
f("C27","a file is lost when the run is killed, or the disk is full, between the opening and the closing of the file it writes (sqlvalidator/file_handler.py, analyse_file)",None,call_site="open(filename, \"wb\") in analyse_file")
f("C09","NATURAL JOIN is said to miss its condition","select a from t natural join u")
fixed=[]
P="""93709e3 C07
e4d1c81 C01
8e3b4b6 C01
b1808f0 C01
9a05023 C02
460755e C02
db3814c C04
9eea3e2 C02
c60e039 C05
aab9fce C01
0818c11 C02
41d736a C15
ddd1a93 C16
8d7cc1b C16
161c028 C19
b130668 C18
f9c52d5 C21
9d376d9 C08
a96bec3 C09
1a37eac C09
921ad74 C10
72f6e8a C10
292ca6e C10
8f771e5 C04
75d7eb2 C01
efbba65 C01
4a0fff8 C09
514ddd6 C01
3586e66 C01
8d2cf7f C01
34c3ca4 C04
f9dbc83 C08
0ed5cd0 C09
9db8d19 C06
2f40f05 C11
d66004e C10
16f797d C10
2652970 C09
93ba00a C09
32722f8 C09
b87ef07 C11
a7f3431 C08
a06ce59 C10
8fb9925 C08
47793c9 C08
d17db1b C08
a9235cf C07
923043b C07
944de12 C07
38d35f2 C07
9f7c8b0 C01
757dca0 C02
aa87dc2 C16
ce87aa8 C01
af45e08 C02
1fc93f2 C08
c09261e C01
876ef2d C08"""
P=dict(l.split() for l in P.splitlines())
try: P.update(json.load(open('/verif/tools/fixprops.json')))
except FileNotFoundError: pass
log=subprocess.run(['git','-C','/repo','log','--reverse','--format=%h %s','--grep','^fix:'],capture_output=True,text=True).stdout
for l in log.splitlines():
    h,s=l.split(' ',1)
    fixed.append("fixed: property=%s %s %s"%(P[h],h,s[5:]))
try: F+=json.load(open('/verif/tools/filefind.json'))
except FileNotFoundError: pass
json.dump({"findings":F,"fixed":fixed},open('/verif/known_findings.json','w'),indent=1)
