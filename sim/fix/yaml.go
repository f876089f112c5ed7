// Package fix builds the library objects the scenarios work on.
package fix

// File is one extension file of the simulated deployment.
type File struct {
	URN, Text string
	Deps      []string
}

// Files are the extension files, dependencies before their users.
var Files = []File{
	{URN: "extension:sim:base", Text: base},
	{URN: "extension:sim:misc", Text: misc},
	{URN: "extension:sim:derived", Text: derived, Deps: []string{"extension:sim:base"}},
	{URN: "extension:sim:top", Text: top, Deps: []string{"extension:sim:base", "extension:sim:derived"}},
	{URN: "extension:sim:agg", Text: aggs},
	{URN: "extension:sim:shapes", Text: shapes},
}

const base = `%YAML 1.2
---
urn: extension:sim:base
metadata:
  owner: sim
  tags: [a, b]
  nested: {k: 1}
types:
  - name: point
    structure:
      x: i32
      y: i32
    metadata:
      unit: m
  - name: money
    structure: decimal<38,2>
  - name: tagged
    parameters:
      - name: tag
        type: string
      - name: width
        type: integer
        min: 1
        max: 64
        optional: true
type_variations:
  - parent: string
    name: utf8view
    description: view strings
    functions: INHERITS
  - parent: i32
    name: zigzag
    description: zigzag ints
    functions: SEPARATE
scalar_functions:
  - name: add
    description: addition
    metadata:
      cost: 1
    impls:
      - args:
          - {name: x, value: i8}
          - {name: y, value: i8}
        options:
          overflow:
            values: [SILENT, SATURATE, ERROR]
        return: i8
      - args:
          - {name: x, value: i32}
          - {name: y, value: i32}
        options:
          overflow:
            values: [SILENT, SATURATE, ERROR]
        return: i32
      - args:
          - {name: x, value: i64}
          - {name: y, value: i64}
        options:
          overflow:
            values: [SILENT, SATURATE, ERROR]
          rounding:
            values: [UP, DOWN]
        return: i64
      - args:
          - {name: x, value: fp64}
          - {name: y, value: fp64}
        return: fp64
      - args:
          - {name: x, value: "decimal<P1,S1>"}
          - {name: y, value: "decimal<P2,S2>"}
        return: |-
          init_scale = max(S1,S2)
          init_prec = init_scale + max(P1 - S1, P2 - S2) + 1
          min_scale = min(init_scale, 6)
          delta = init_prec - 38
          prec = min(init_prec, 38)
          scale_after_borrow = max(init_scale - delta, min_scale)
          scale = init_prec > 38 ? scale_after_borrow : init_scale
          DECIMAL<prec, scale>
  - name: equal
    impls:
      - args:
          - {name: x, value: any1}
          - {name: y, value: any1}
        return: boolean
  - name: coalesce
    impls:
      - args:
          - {name: v, value: any1}
        variadic:
          min: 2
          parameterConsistency: CONSISTENT
        nullability: DECLARED_OUTPUT
        return: any1
  - name: concat
    impls:
      - args:
          - {name: s, value: "varchar<L1>"}
        variadic: {min: 1}
        return: "varchar<L1>"
      - args:
          - {name: s, value: string}
        variadic: {min: 1}
        return: string
  - name: is_null
    impls:
      - args:
          - {name: v, value: any1}
        nullability: DECLARED_OUTPUT
        return: boolean
  - name: discrete_not
    impls:
      - args:
          - {name: v, value: "boolean?"}
        nullability: DISCRETE
        return: "boolean?"
  - name: extract
    impls:
      - args:
          - name: unit
            options: [YEAR, MONTH, DAY]
          - {name: d, value: date}
        return: i64
      - args:
          - name: unit
            options: [YEAR, MONTH, DAY]
          - {name: d, value: "precision_timestamp<P>"}
        return: i64
  - name: shift
    impls:
      - args:
          - {name: p, value: u!point}
          - {name: dx, value: i32}
        return: u!point
  - name: apply
    impls:
      - args:
          - {name: l, value: "list<any1>"}
          - {name: f, value: "func<any1 -> any2>"}
        return: "list<any2>"
  - name: lookup
    impls:
      - args:
          - {name: m, value: "map<any1,any2>"}
          - {name: k, value: any1}
        nullability: DECLARED_OUTPUT
        return: "any2?"
  - name: now
    impls:
      - return: timestamp_tz
        sessionDependent: true
  - name: rand
    impls:
      - deterministic: false
        return: fp64
`

const misc = `---
urn: extension:sim:misc
types:
  - name: point
  - name: color
  - name: Polygon
  - name: geo
    variadic: true
    parameters:
      - name: srid
        type: integer
      - name: kind
        type: enumeration
        options: [A, B]
type_variations:
  - parent: string
    name: utf8view
    description: another one of the same name
    functions: SEPARATE
  - parent: struct
    name: packed
    functions: INHERITS
  - parent: i64
    name: Packed
    functions: SEPARATE
scalar_functions:
  - name: add
    impls:
      - args:
          - {name: x, value: i32}
          - {name: y, value: i32}
        return: i64
  - name: Add
    impls:
      - args:
          - {name: x, value: i32}
          - {name: y, value: i32}
        return: i8
  - name: toText_2
    impls:
      - args:
          - {name: x, value: any1}
        return: string
  - name: invert
    impls:
      - args:
          - {name: x, value: boolean}
        return: boolean
  - name: mix
    impls:
      - args:
          - {name: a, value: u!color}
          - {name: b, value: u!color}
        return: u!color
  - name: make_geo
    impls:
      - args:
          - {name: x, value: string}
        return: u!geo
  - name: pair
    impls:
      - args:
          - {name: a, value: any1}
          - {name: b, value: any2}
        return: "struct<any1,any2>"
  - name: pick
    impls:
      - args:
          - {name: s, value: "struct<any1,any2>"}
        return: any1
  - name: clip
    impls:
      - args:
          - {name: s, value: "fixedchar<N>"}
        return: "varchar<N>"
  - name: trunc_ts
    impls:
      - args:
          - {name: s, value: "precision_timestamp_tz<P>"}
        return: "precision_timestamp_tz<P>"
aggregate_functions:
  - name: collect
    impls:
      - args:
          - {name: x, value: any1}
        nullability: DECLARED_OUTPUT
        decomposable: MANY
        intermediate: "list<any1>"
        return: "list<any1>"
        ordered: true
window_functions:
  - name: row_rank
    impls:
      - return: i64
        window_type: PARTITION
  - name: lead
    impls:
      - args:
          - {name: x, value: any1}
        nullability: DECLARED_OUTPUT
        window_type: PARTITION
        return: "any1?"
      - args:
          - {name: x, value: any1}
          - {name: off, value: i32}
        nullability: DECLARED_OUTPUT
        window_type: PARTITION
        return: "any1?"
`

const derived = `---
urn: extension:sim:derived
dependencies:
  b: extension:sim:base
metadata:
  layer: 2
types:
  - name: segment
    structure:
      from: i64
      to: i64
scalar_functions:
  - name: length
    impls:
      - args:
          - {name: s, value: u!segment}
        return: fp64
  - name: head
    impls:
      - args:
          - {name: s, value: u!segment}
        return: u!segment
  - name: join_points
    impls:
      - args:
          - {name: a, value: i64}
          - {name: b, value: i64}
        return: u!segment
  - name: add
    impls:
      - args:
          - {name: a, value: u!segment}
          - {name: b, value: u!segment}
        return: u!segment
`

const top = `---
urn: extension:sim:top
dependencies:
  base: extension:sim:base
  d: extension:sim:derived
types:
  - name: shape
type_variations:
  - parent: i64
    name: delta
    functions: INHERITS
scalar_functions:
  - name: outline
    impls:
      - args:
          - {name: s, value: u!shape}
        variadic: {min: 1}
        return: u!shape
  - name: corner
    impls:
      - args:
          - {name: s, value: u!shape}
          - {name: i, value: i32}
        return: "list<u!shape>"
`

const aggs = `---
urn: extension:sim:agg
aggregate_functions:
  - name: sum
    impls:
      - args:
          - {name: x, value: i32}
        nullability: DECLARED_OUTPUT
        decomposable: MANY
        intermediate: "i64?"
        return: "i64?"
      - args:
          - {name: x, value: i64}
        options:
          overflow:
            values: [SILENT, ERROR]
        nullability: DECLARED_OUTPUT
        decomposable: MANY
        intermediate: "i64?"
        return: "i64?"
      - args:
          - {name: x, value: "decimal<P,S>"}
        nullability: DECLARED_OUTPUT
        decomposable: ONE
        intermediate: "decimal?<38,S>"
        return: "decimal?<38,S>"
  - name: count
    impls:
      - args:
          - {name: x, value: any1}
        nullability: DECLARED_OUTPUT
        decomposable: MANY
        intermediate: i64
        return: i64
      - nullability: DECLARED_OUTPUT
        decomposable: MANY
        intermediate: i64
        return: i64
  - name: quantile
    impls:
      - args:
          - name: precision
            options: [EXACT, APPROXIMATE]
          - {name: n, value: i64, constant: true}
          - {name: x, value: any1}
        variadic: {min: 0}
        nullability: DECLARED_OUTPUT
        ordered: true
        return: "list<any1>"
window_functions:
  - name: ntile
    impls:
      - args:
          - {name: x, value: i32}
        return: i32
        window_type: PARTITION
  - name: running
    impls:
      - args:
          - {name: x, value: fp64}
        return: "fp64?"
        window_type: STREAMING
`

// shapes has signatures of every parameter shape the type grammar allows.
const shapes = `---
urn: extension:sim:shapes
types:
  - name: matrix
    parameters:
      - {name: rows, type: integer}
      - {name: cell, type: dataType}
scalar_functions:
  - name: fold
    impls:
      - args:
          - {name: l, value: "list<any1>"}
          - {name: init, value: any2}
          - {name: f, value: "func<(any2, any1, i64) -> any2>"}
        return: any2
  - name: zip
    impls:
      - args:
          - {name: a, value: "list<any1>"}
          - {name: b, value: "list<any2>"}
          - {name: f, value: "func<(any1, any2) -> any3>"}
        return: "list<struct<any1,any2,any3>>"
  - name: dig
    impls:
      - args:
          - {name: s, value: "struct<any1,list<any2>,map<any1,any2>>"}
        nullability: DECLARED_OUTPUT
        return: "any2?"
  - name: invert_map
    impls:
      - args:
          - {name: m, value: "map<any1,list<any2>>"}
        return: "map<any2,list<any1>>"
  - name: pad
    impls:
      - args:
          - {name: s, value: "fixedbinary<N>"}
        return: "fixedbinary<N>"
      - args:
          - {name: s, value: "fixedchar<N>"}
          - {name: t, value: "fixedchar<N>"}
        return: "fixedchar<N>"
  - name: widen
    impls:
      - args:
          - {name: a, value: "varchar<L1>"}
          - {name: b, value: "varchar<L2>"}
        return: |-
          total = L1 + L2
          capped = min(total, 2000)
          VARCHAR<capped>
      - args:
          - {name: a, value: "decimal<P,S>"}
          - {name: b, value: i32}
        return: |-
          big = P > 20
          p2 = big ? 38 : P + 10
          DECIMAL?<p2, S>
  - name: at_time
    impls:
      - args:
          - {name: t, value: "precision_time<P>"}
          - {name: i, value: "interval_day<P>"}
        return: "precision_time<P>"
      - args:
          - {name: t, value: "precision_timestamp<P>"}
        return: "precision_timestamp_tz<P>"
      - args:
          - {name: t, value: interval_year}
          - {name: n, value: "decimal<10,2>"}
        return: interval_year
  - name: choose
    impls:
      - args:
          - name: mode
            options: [FIRST, LAST]
          - {name: v, value: "list<any1>"}
        variadic: {min: 1, max: 3, parameterConsistency: INCONSISTENT}
        nullability: DECLARED_OUTPUT
        return: "list?<any1>"
  - name: strict
    impls:
      - args:
          - {name: a, value: "i32?"}
          - {name: b, value: i64}
          - {name: c, value: "varchar?<L>"}
        nullability: DISCRETE
        return: "varchar?<L>"
      - args:
          - {name: a, value: "struct?<any1,any2>"}
        nullability: DISCRETE
        return: any1
  - name: cell
    impls:
      - args:
          - {name: m, value: "u!matrix"}
          - {name: i, value: i64}
        options:
          bounds:
            values: [CLAMP, ERROR]
          order:
            values: [ROW, COLUMN]
        return: fp64
  - name: derive
    impls:
      - args:
          - {name: a, value: "decimal<P,S>"}
          - {name: b, value: "decimal<Q,T>"}
        return: |-
          both = (P > 5) and (Q >= 5)
          off = (S = 0) or (T != 0)
          half = (P + Q) / 2
          low = if both then abs(S - T) else min(S * 2, T)
          p2 = if (P <= Q) then max(P, Q) else half
          s2 = if (off and (low < p2)) then low else 0
          DECIMAL<p2, s2>
      - args:
          - {name: a, value: "fixedbinary<L>"}
          - {name: b, value: "varchar<M>"}
        return: |-
          n = if (L < M) or (L = M) then L * M else L - M
          STRUCT<VARCHAR<n>, LIST?<FIXEDCHAR<L>>, MAP<I8, FIXEDBINARY?<M>>>
  - name: spread
    impls:
      - args:
          - {name: s, value: "struct<any1,map<any2,list<any3>>>"}
        return: "map<any2,struct<any1,any3?>>"
      - args:
          - {name: f, value: "func<any1 -> any2>"}
          - {name: x, value: any1}
        return: "func<any1 -> list<any2>>"
      - args:
          - {name: c, value: "u!matrix<3, i32>"}
        return: "u!matrix<3, list<i32?>>"
      - args:
          - {name: c, value: "u!matrix?<N, any1>"}
        nullability: DISCRETE
        return: any1
aggregate_functions:
  - name: wide_sum
    impls:
      - args:
          - {name: x, value: "decimal<P,S>"}
        decomposable: MANY
        intermediate: |-
          p = min(P + 10, 38)
          STRUCT<DECIMAL<p,S>,i64>
        return: |-
          p = min(P + 10, 38)
          DECIMAL?<p, S>
        maxset: 100
      - args:
          - {name: x, value: "list<any1>"}
          - {name: f, value: "func<any1 -> boolean>"}
        return: "map<any1,i64>"
  - name: arg_max
    impls:
      - args:
          - {name: x, value: any1}
          - {name: by, value: any2}
        variadic: {min: 1, max: 4}
        nullability: DECLARED_OUTPUT
        ordered: true
        return: "any1?"
window_functions:
  - name: drift
    impls:
      - args:
          - {name: x, value: "decimal<P,S>"}
          - {name: y, value: "decimal<P,S>"}
        window_type: PARTITION
        decomposable: ONE
        intermediate: "decimal<P,S>"
        return: |-
          s2 = S > 6 ? 6 : S
          DECIMAL<P, s2>
`
