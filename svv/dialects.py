"""Pieces of SQL that other dialects have and this package does not promise to support."""

EXPRESSIONS = """
interval '1 day' | interval 1 day | interval '1' day to hour | date '2020-01-01'
timestamp '2020-01-01 00:00:00' | a at time zone 'utc' | a::int | a::numeric(10, 2) | a::text[]
a ->> 'x' | a -> 'b' -> 'c' | a #>> '{x}' | a @> b | a ? 'key' | a ~* 'x.*' | a !~ 'x' | a <=> b
string_agg(a, ',' order by b) | string_agg(distinct a, ', ' order by b desc limit 3)
group_concat(a order by b separator ',') | group_concat(distinct a separator '; ')
percentile_cont(0.5) within group (order by a) | listagg(a, ',') within group (order by b)
lag(a) ignore nulls over (order by b) | lag(a ignore nulls) over (order by b)
first_value(a) respect nulls over w | sum(a) over w | sum(a) over (w order by b)
row_number() over (order by a rows between 1 preceding and current row exclude ties)
row_number() over (partition by a order by b groups 2 preceding) | any_value(a having max b)
sum(distinct a) | max(all a) | count(distinct a, b) | substring(a from 1 for 2) | trim(both 'x' from a)
trim(leading from a) | position('x' in a) | overlay(a placing 'b' from 1 for 2) | ceil(a to day)
convert(a, char) | convert(a using utf8) | cast(a as numeric(10, 2)) | cast(a as array<int64>)
try_cast(a as varchar(10)) | cast(a as timestamp with time zone) | cast(a as string format 'x')
struct<int64, string>(1, 'a') | struct(1 as a, 'x' as b) | array<int64>[1, 2] | array[1, 2][1]
row(1, 2) | map{'a': 1} | {'a': 1} | x -> x + 1 | (x, y) -> x + y | a[1:2] | a[*] | a.b[1].c
a ilike 'x%' | a not ilike 'x' | a similar to 'x' | a like 'x!%' escape '!' | a regexp 'x' | a rlike 'x'
a glob 'x' | a sounds like b | a like any ('x', 'y') | a = any (select b from u) | a > all (select b from u)
a = some (array[1]) | a is distinct from b | a is not distinct from b | a is unknown | a isnull | a notnull
a is json | a is of (int) | a between symmetric 1 and 2 | a between asymmetric 1 and 2 | a overlaps b
(a, b) overlaps (c, d) | a div b | a mod b | a xor b | ~a | !a | a == b | a ** b | a // b | a += b | @@version
@x := 1 | :a::int | current_date - interval 7 day | extract(epoch from a - b) | extract(week(monday) from a)
date_add(a, interval 1 day) | timestamp_diff(a, b, day) | date_trunc(a, week(monday)) | a collate "de"
case a when 1 then 2 else 3 end case | if a then b | iff(a, b, c) | nullif(a, 0) filter (where b) over (order by c)
b'01' | x'ff' | e'a' | n'abc' | br'x' | rb"y" | u&'x' | 'a' 'b' | $$it  is$$ | $q$ x $q$ | 0x1F | 1_000 | 1.5f
'x'::date | a.* | t.* except (a) | * exclude (a) | * rename (a as b) | columns('x.*') | grouping(a) | prior a
a <-> b | a && b | a <@ b | a ||/ b | |/ a | @ a | a !! | a ^@ b | a % b | a %% b | a # b | a ?| b
exists (table t) | (values (1, 2)) | multiset(select 1) | table(f(1)) | lateral flatten(a) | a(+) | a..b | a.b.c.d
not a is null | a is not true | a is not null and not b | a in (select 1) is null | - - 1 | + - a | not not a
next value for s | nextval('s') | xmlelement(name x) | json_object('a': 1) | json_table(a, '$' columns (b int path '$.b'))
a match_recognize (x) | ml.predict(model m, table t) | safe.f(a) | net.host(a) | a.f(1).g(2) | f(a => 1) | f(a := 1)
f(variadic a) | f(table t) | f(*) | f(a, *) | f(select 1) | f(distinct a order by b) | f(a as b) | f() filter (where a)
"""

CLAUSES = """
qualify row_number() over (partition by a) = 1 | window w as (partition by c) | for update | for update of t nowait
for share skip locked | fetch first 10 rows only | fetch next 1 row with ties | limit 10, 20 | limit 10 percent
limit 5 by a | offset 5 rows | offset 5 rows fetch next 5 rows only | group by all | group by grouping sets ((a), (b))
group by cube (a, b) | group by a with rollup | group by a, rollup (b, c) | group by () | order by all
order by a using > | order by a nulls last, b | order by a collate "de" desc | sort by a | distribute by a
cluster by a | having a qualify b | with check option | option (maxdop 1) | settings max_threads = 1
connect by prior a = b start with a = 1 | tablesample system (10 percent) | tablesample bernoulli (1) repeatable (2)
for system_time as of now() | pivot (sum(x) for y in (1, 2)) | unpivot (a for b in (c, d)) | lateral view explode(a) x as y
natural join u | natural left join u | left semi join u on a = b | left anti join u using (a) | straight_join u
asof join u on a = b | cross apply f(a) | outer apply f(a) | full join u | join u | join lateral (select 1) x on true
join u on a = b and c | array join a as b | global inner join u on a = b | , lateral (select 1) x | , unnest(a) x
partition (p0) | use index (i) | force index for join (i) | with (nolock) | with ordinality as x (a, b) | as x (c, d)
into outfile 'x' | into x | minus select b from u | union by name select 1 | union (select 1) order by 1
except distinct select a from u | intersect select a from u order by a limit 1 | union all values (1) | union corresponding select 1
where a = 1 where b = 2 | where current of c | group by a group by b | limit 1 limit 2 | ; select 2 | ; delete from t | ;;
returning a | on duplicate key update a = 1 | \\G | go | /
"""

STARTS = """
select top 10 | select top (5) percent | select sql_calc_found_rows | select straight_join | select as struct
select as value | select distinctrow | select high_priority | select /*+ hint */ | select into x | select with anonymization
with recursive r as (select 1) select | with x (a, b) as (select 1, 2) select | with x as materialized (select 1) select
with x as not materialized (select 1) select | with x as (values (1)) select | with x as (insert into t values (1) returning a) select
select @x := 1, | select all | select distinct on (a) | select unique
"""

COMMENTS = """
-- c\n | --c\n | -- it's "one\n | -- from u where ( \n | /* c */ | /*c*/ | /* it's */ | /* a\n * b\n */ | /*+ hint(a) */
/* -- */ | -- /* \n | /**/ | --\n | -- nosqlformat\n | /* ; */ | -- select\n
"""


def pieces(text):
    return [
        p.strip(" ") for line in text.strip().split("\n") if line for p in line.split(" | ") if p.strip(" ")
    ]


EXPRESSIONS, CLAUSES, STARTS = [pieces(x) for x in (EXPRESSIONS, CLAUSES, STARTS)]
COMMENTS = [
    "-- c\n", "--c\n", "-- it's \"one\n", "-- from u where (\n", "/* c */", "/*c*/", "/* it's */",
    "/* a\n * b\n */", "/*+ hint(a) */", "/* -- */", "-- /* \n", "/**/", "--\n", "/* ; */",
    "-- select\n", "-- a, b\n", "--a\n", "/* a\n\n  b */",
]
WORDS = (
    "select from where group by order having limit offset ( ) ( ) , , . * case when then else end and or not in is "
    "like between null as on using over cast union all except intersect join left inner cross with distinct "
    "exists interval qualify window filter unnest array_agg extract - + = < 1 0 2.5 'x' \"y\" `z` a b f [ ] ; : "
    "replace rollup ignore nulls asc desc true partition rows range current row each r count ? %s || <> != & ~ ! ^ { }"
).split()
