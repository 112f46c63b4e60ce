from .util import *

D4 = 'array[1..4] of var 0..3: xs; '
# (declarations, include, constraint expression)
G = [
    ('', 'all_different', ['all_different(xs)', 'all_different([x,y,z])', 'all_different([x,y,2])', 'all_different([x+1,y,z-1])', 'all_different([x])', 'all_different([x,x,y])', 'all_different(array2d(1..2,1..2,xs))', 'all_different([s,t])', 'all_different([])']),
    ('', 'all_different_except_0', ['all_different_except_0(xs)', 'all_different_except_0([x,y,z,0])', 'all_different_except_0([x,x])']),
    ('', 'all_different_except', ['all_different_except(xs,{0,2})', 'all_different_except([x,y,z],{1})', 'all_different_except(xs,{})']),
    ('', 'all_equal', ['all_equal(xs)', 'all_equal([x,y,z])', 'all_equal([x,2])', 'all_equal([x])', 'all_equal([s,t])', 'all_equal([x,y,x+1])']),
    ('', 'all_disjoint', ['all_disjoint([s,t,u])', 'all_disjoint([s])', 'all_disjoint([s,{1,2}])']),
    ('', 'disjoint', ['disjoint(s,t)', 'disjoint(s,{1,3})', 'disjoint(s,s)']),
    ('', 'symmetric_all_different', ['symmetric_all_different(sy)']),
    ('', 'among', ['among(i,xs,{0,2})', 'among(2,[x,y,z],{0,2})', 'among([x,y,z],{1,2}) = i', 'among(x,xs,{1})']),
    ('', 'at_least', ['at_least(2,xs,1)', 'at_least(n,[x,y,z],2)', 'at_least(1,[s,t],{1})']),
    ('', 'at_most', ['at_most(2,xs,1)', 'at_most(n,[x,y,z],2)', 'at_most(0,[x,y],1)']),
    ('', 'exactly', ['exactly(2,xs,1)', 'exactly(1,[x,y,z],2)', 'exactly(n,xs,n)']),
    ('', 'at_most1', ['at_most1([s,t,u])']),
    ('', 'count_eq', ['count_eq(xs,1,2)', 'count_eq(xs,x,i)', 'count_eq([x,y,z],y,1)', 'count(xs,1) = i', 'count(xs,x) > 1']),
    ('', 'count_neq', ['count_neq(xs,1,2)', 'count_neq(xs,x,i)']),
    ('', 'count_leq', ['count_leq(xs,1,2)', 'count_leq(xs,x,i)']),
    ('', 'count_geq', ['count_geq(xs,1,2)', 'count_geq(xs,x,i)', 'count_geq([x,y,1],1,i)']),
    ('', 'count_lt', ['count_lt(xs,1,2)', 'count_lt(xs,x,i)']),
    ('', 'count_gt', ['count_gt(xs,1,2)', 'count_gt(xs,x,i)']),
    ('', 'bin_packing', ['bin_packing(3,xs,[1,2,2,1])', 'bin_packing(2,[x,y],[2,1])', 'bin_packing(n,xs,[1,1,1,1])']),
    ('', 'bin_packing_capa', ['bin_packing_capa([3,2,4],[j,k3,l3],[1,2,2])', 'bin_packing_capa([1,2,3],[j,k3],[2,1])']),
    ('', 'bin_packing_load', ['bin_packing_load(ld,[j,k3,l3],[1,2,2])', 'bin_packing_load(array1d(0..2,ld),[x0,y0],[3,1])']),
    ('', 'circuit', ['circuit(ci)', 'circuit(array1d(0..3,ci0))', 'circuit([j,k3,l3])']),
    ('', 'subcircuit', ['subcircuit(ci)', 'subcircuit([j,k3,l3])', 'subcircuit(array1d(0..3,ci0))']),
    ('', 'cumulative', ['cumulative([x0,y0,z0],[2,1,2],[1,2,1],2)', 'cumulative([x0,y0],[d1,2],[1,r1],r2)', 'cumulative([x0,y0,z0],[1,0,2],[2,2,0],2)', 'cumulative([x0,y0],[d1,d2],[r1,1],1)', 'cumulative([x0,1],[2,2],[1,1],1)','cumulative([x0,y0+1,0,z0],[1,1,1,1],[1,1,2,1],2)','cumulative([x0,y0+2,z0-1],[2,1,d1],[2,2,1],2)','cumulative([x0,3,y0-2,0],[1,2,2,1],[1,2,1,2],2)','cumulative([x0-1,y0+1],[d1,d2],[2,1],r1)','cumulative(array1d(0..2,[x0,4,y0]),array1d(0..2,[2,1,2]),array1d(0..2,[1,3,1]),r2+1)']),
    ('', 'cumulative-wide', ['cumulative([xb,yb,zb],[2,1,2],[1,2,1],2)', 'cumulative([xb,yb],[d1,2],[2,r1],2)', 'cumulative([xb,yb,x0],[d1,d2,2],[1,2,r1],2)', 'cumulative([xb,yb,zb],[d1,2,1],[r1,r2,1],r3)', 'cumulative([ob1,ob2],[d1,2],[2,r1],2)', 'cumulative([ob1,xb,ob2],[d1,d2,2],[1,r1,2],2)',
        'cumulative([ob1,ot1,x0],[d1,2,1],[1,2,1],r3)', 'cumulative([xb,5000],[d1,0],[2,2],1)', 'disjunctive([xb,yb,zb],[d1,2,0])', 'disjunctive([ob1,xb,ot1],[d1,d2,1])']),
    ('', 'disjunctive', ['disjunctive([x0,y0,z0],[2,1,1])', 'disjunctive([x0,y0],[d1,d2])', 'disjunctive([x0,y0],[0,2])']),
    ('', 'disjunctive_strict', ['disjunctive_strict([x0,y0,z0],[2,1,1])', 'disjunctive_strict([x0,y0],[d1,d2])', 'disjunctive_strict([x0,y0],[0,2])']),
    ('', 'diffn', ['diffn([x0,y0],[z0,x1],[1,2],[2,1])', 'diffn([x0,y0],[1,x1],[d1,2],[d2,1])']),
    ('', 'diffn_nonstrict', ['diffn_nonstrict([x0,y0],[z0,x1],[1,2],[2,1])', 'diffn_nonstrict([x0,y0],[1,x1],[d1,2],[d2,0])']),
    ('', 'diffn_k', ['diffn_k([|x0,y0|z0,x1|],[|1,2|2,1|])']),
    ('', 'diffn_nonstrict_k', ['diffn_nonstrict_k([|x0,y0|z0,x1|],[|1,0|2,1|])']),
    ('', 'distribute', ['distribute([i,k0,1],[1,2,0],xs)', 'distribute([i,k0],[1,x0],[y0,z0,x1])']),
    ('', 'element', ['element(j,[x,y,z],2)', 'element(x,xs,y)', 'element(x,[3,1,2],y)', 'element(x,[b,c,d],true)', 'element(j,[s,t,{1}],u)', 'element(x,array1d(0..2,[x,y,z]),1)']),
    ('', 'global_cardinality', ['global_cardinality(xs,[1,2],[2,1])', 'global_cardinality(xs,[0,3],[i,k0])', 'global_cardinality([x,y,z],[1,2,5],[i,1,k0])', 'global_cardinality([x,y,z],[2],[i])']),
    ('', 'global_cardinality_closed', ['global_cardinality_closed(xs,[1,2],[2,2])', 'global_cardinality_closed(xs,[0,3,1],[i,k0,1])']),
    ('', 'global_cardinality_low_up', ['global_cardinality_low_up(xs,[1,2],[0,1],[2,3])', 'global_cardinality_low_up([x,y,z],[1,2],[1,0],[2,1])']),
    ('', 'global_cardinality_low_up_closed', ['global_cardinality_low_up_closed(xs,[1,2],[0,1],[2,3])']),
    ('', 'increasing', ['increasing(xs)', 'increasing([x,y,z])', 'increasing([x,2,y])', 'increasing([b,c,d])', 'increasing([x])', 'increasing([s,t])']),
    ('', 'strictly_increasing', ['strictly_increasing(xs)', 'strictly_increasing([x,y,z])']),
    ('', 'decreasing', ['decreasing(xs)', 'decreasing([x,y,z])', 'decreasing([b,c,d])', 'decreasing([x,1])']),
    ('', 'strictly_decreasing', ['strictly_decreasing(xs)', 'strictly_decreasing([x,y,z])']),
    ('', 'int_set_channel', ['int_set_channel([j,k3],[s3,t3,u3])']),
    ('', 'inverse', ['inverse([j,k3,l3],[m3,n3,o3])', 'inverse(array1d(0..2,[x0,y0,z0]),array1d(0..2,[x1,x2,x3]))', 'inverse([j,k3,l3],[2,1,m3])']),
    ('', 'inverse_in_range', ['inverse_in_range([x0,y0,z0],[x1,x2])', 'inverse_in_range([j,k3],[l3,m3,x0])']),
    ('', 'inverse_set', ['inverse_set([s3,t3],[s2,t2,u2])']),
    ('', 'knapsack', ['knapsack([1,2,3],[2,1,3],[x0,y0,z0],W,P)', 'knapsack([2,1],[1,3],[x0,1],W,x1)']),
    ('', 'lex_less', ['lex_less([x,y],[y,z])', 'lex_less(xs,ys)', 'lex_less([x,y],[y,z,x])', 'lex_less([b,c],[c,d])', 'lex_less([],[x])', 'lex_less([x],[])', 'lex_less([x,y],[1,2])', 'lex_less([s,t],[t,u])']),
    ('', 'lex_lesseq', ['lex_lesseq([x,y],[y,z])', 'lex_lesseq(xs,ys)', 'lex_lesseq([x,y,z],[y,z])', 'lex_lesseq([b,c],[c,d])', 'lex_lesseq([],[])', 'lex_lesseq([1,x],[y,2])']),
    ('', 'lex_greater', ['lex_greater([x,y],[y,z])', 'lex_greater(xs,[1,2,1,1])']),
    ('', 'lex_greatereq', ['lex_greatereq([x,y],[y,z])', 'lex_greatereq([b,c],[c,d])']),
    ('', 'lex2', ['lex2(array2d(1..2,1..2,xs))']),
    ('', 'strict_lex2', ['strict_lex2(array2d(1..2,1..2,xs))']),
    ('', 'lex_chain_less', ['lex_chain_less(array2d(1..2,1..2,xs))', 'lex_chain_less(m)']),
    ('', 'lex_chain_lesseq', ['lex_chain_lesseq(array2d(1..2,1..2,xs))']),
    ('', 'lex_chain_greater', ['lex_chain_greater(array2d(1..2,1..2,xs))']),
    ('', 'lex_chain_greatereq', ['lex_chain_greatereq(array2d(1..2,1..2,xs))']),
    ('', 'link_set_to_booleans', ['link_set_to_booleans(s3,[b,c,d])']),
    ('', 'maximum', ['maximum(x,[y,z,2])', 'maximum(x,xs)', 'max([x,y,z]) = i', 'maximum(x,[x,y])']),
    ('', 'minimum', ['minimum(x,[y,z,2])', 'minimum(x,xs)', 'min([x,y,z]) = i']),
    ('', 'arg_max', ['arg_max([x,y,z]) = j', 'arg_max(xs) = i', 'maximum_arg([x,y,z],j)', 'arg_max(array1d(0..2,[x,y,z])) = x0', 'arg_max([b,c,d]) = j']),
    ('', 'arg_min', ['arg_min([x,y,z]) = j', 'arg_min(xs) = i', 'minimum_arg([x,y,z],j)', 'arg_min([b,c,d]) = j']),
    ('', 'member', ['member(xs,x)', 'member([x,y],2)', 'member(s,x)', 'member([b,c],d)', 'member([s,t],u)']),
    ('', 'nvalue', ['nvalue(i,xs)', 'nvalue(2,[x,y,z])', 'nvalue([x,y,1]) = i']),
    ('', 'partition_set', ['partition_set([s,t],0..3)', 'partition_set([s,t,u],{1,2})']),
    ('', 'range', ['range([j,k3,l3],s3,t3)']),
    ('', 'roots', ['roots([j,k3,l3],s3,t3)']),
    ('', 'regular', ['regular([j,k3,l3],2,3,[|1,2,0|2,0,1|],1,{2})', 'regular([x0,y0,z0],3,2,[|2,1|3,2|0,1|],1,{1,3})', 'regular([j,x,k3],2,3,[|1,2,0|2,0,1|],1,{1,2})', 'regular([j,k3],"1*2|3 1")', 'regular([x0,y0,z0],"0+1*(2|0)")', 'regular([x,y,z],"(0|1 2){1,2} [^1 3]?")', 'regular([x,y],". [0-2 4]")', 'regular([i,j,x0]," (1|2{2})* 0{0,1}")']),
    ('', 'regular_nfa', ['regular_nfa([j,k3,l3],2,3,[|{1,2},{2},{}|{2},{},{1}|],1,{2})']),
    ('', 'cost_regular', ['cost_regular([j,k3],2,3,[|1,2,0|2,0,1|],1,{2},[|1,2,0|3,0,1|],i)']),
    ('', 'sliding_sum', ['sliding_sum(2,4,2,xs)', 'sliding_sum(1,3,3,[x,y,z,1])', 'sliding_sum(0,0,1,[x,y])']),
    ('', 'sliding_among', ['sliding_among(1,2,2,xs,{0,2})', 'sliding_among(1,1,3,[x,y,z,2],{1,2})', 'sliding_among(1,2,2,[b,c,d],false)']),
    ('', 'sort', ['sort(xs,ys)', 'sort([x,y,z]) = [y,z,x]', 'sort([x,y],[x0,y0])', 'sort([x,y,2])[2] = z']),
    ('', 'arg_sort', ['arg_sort([x,y,z],[j,k3,l3])', 'arg_sort([x,y]) = [j,k3]']),
    ('', 'sum_pred', ['sum_pred(j,[1..2,{3},1..3],[2,1,3],i)']),
    ('', 'sum_set', ['sum_set([1,2,4],[3,1,2],s,i)']),
    ('', 'table', ['table([x,y],[|1,2|0,0|3,-1|2,2|])', 'table([b,c],[|true,false|false,true|])', 'table([x,1,y],[|1,1,2|0,1,0|3,2,3|])', 'table([x,y,z],[|1,2,1|1,2,1|0,0,0|])', 'table([x],[|1|3|])', 'table([x,x],[|1,2|2,2|])']),
    ('', 'value_precede', ['value_precede(1,2,xs)', 'value_precede(2,1,[x,y,z])', 'value_precede(1,3,[x,1,y])', 'value_precede(1,2,[s,t])']),
    ('', 'value_precede_chain', ['value_precede_chain([1,2,3],xs)', 'value_precede_chain([2,0],[x,y,z])']),
    ('', 'seq_precede_chain', ['seq_precede_chain(xs)', 'seq_precede_chain([x,y,z])']),
    ('', 'connected', ['connected([1,2,3],[2,3,1],[b,c,true],ee)']),
    ('', 'dconnected', ['dconnected([1,2,3],[2,3,1],[b,c,true],ee)']),
    ('', 'reachable', ['reachable([1,2,3],[2,3,1],j,[b,c,d],ee)', 'dreachable([1,2,3],[2,3,1],j,[b,c,d],ee)']),
    ('', 'tree', ['tree([1,2,3],[2,3,1],j,[b,c,d],ee)', 'dtree([1,2,3],[2,3,1],j,[b,c,d],ee)']),
    ('', 'path', ['path([1,2,3],[2,3,1],j,k3,[b,c,d],ee)', 'dpath([1,2,3],[2,3,1],j,k3,[b,c,d],ee)']),
    ('', 'dag', ['subgraph([1,2,3],[2,3,1],[b,c,d],ee) /\\ dag([1,2,3],[2,3,1],[b,c,d],ee)']),
    ('', 'subgraph', ['subgraph([1,2,3],[2,3,1],[b,c,d],ee)']),
    ('', 'steiner', ['steiner(3,3,[1,2,3],[2,3,1],[1,2,1],[b,c,d],ee,i)', 'dsteiner(3,3,[1,2,3],[2,3,1],[1,2,1],j,[b,c,d],ee,i)']),
    ('', 'weighted_spanning_tree', ['weighted_spanning_tree(3,3,[1,2,3],[2,3,1],[1,2,1],ee,i)', 'd_weighted_spanning_tree(3,3,[1,2,3],[2,3,1],[1,2,1],j,ee,i)']),
    ('', 'mdd', ['mdd([x0,y0],3,[1,2,2],4,[1,1,2,3],[{0},{1,2},{1},{0,2}],[2,3,0,0])']),
    ('', 'network_flow', ['network_flow([|1,2|2,3|1,3|],[1,0,-1],[x0,y0,z0])', 'network_flow_cost([|1,2|2,3|1,3|],[1,0,-1],[1,2,4],[x0,y0,z0],i)']),
    ('', 'span', ['span(x0,d1,[y0,z0],[d2,1])', 'span(ot1,d1,[ot2,y0],[1,d2])', 'span(ot1,d1,[ot2,ot3],[1,d2])']),
    ('', 'alternative', ['alternative(x0,d1,[ot1,ot2],[1,2])', 'alternative(x0,2,[ot1,ot2],[d1,2])']),
]
EXTRA = {
    'sy': 'array[1..3] of var 1..3: sy;', 'ci': 'array[1..4] of var 1..4: ci;', 'ci0': 'array[1..4] of var 0..3: ci0;', 'ld': 'array[1..3] of var 0..4: ld;',
    'k3': 'var 1..3: k3;', 'l3': 'var 1..3: l3;', 'm3': 'var 1..3: m3;', 'n3': 'var 1..3: n3;', 'o3': 'var 1..3: o3;', 'k0': 'var 0..3: k0;',
    'x0': 'var 0..2: x0;', 'y0': 'var 0..2: y0;', 'z0': 'var 0..2: z0;', 'x1': 'var 0..2: x1;', 'x2': 'var 0..2: x2;', 'x3': 'var 0..2: x3;',
    'd1': 'var 0..2: d1;', 'd2': 'var 0..2: d2;', 'r1': 'var 0..2: r1;', 'r2': 'var 0..2: r2;', 'W': 'var 0..6: W;', 'P': 'var 0..7: P;',
    's3': 'var set of 1..3: s3;', 't3': 'var set of 1..3: t3;', 'u3': 'var set of 1..2: u3;', 's2': 'var set of 1..2: s2;', 't2': 'var set of 1..2: t2;', 'u2': 'var set of 1..2: u2;',
    'xb': 'var 0..6000: xb;', 'yb': 'var -5..6000: yb;', 'zb': 'var {0,1,2,5999,6000}: zb;', 'ob1': 'var opt 0..6000: ob1;', 'ob2': 'var opt 0..6000: ob2;', 'r3': 'var 1..3: r3;',
    'ee': 'array[1..3] of var bool: ee;', 'ot1': 'var opt 0..2: ot1;', 'ot2': 'var opt 0..2: ot2;', 'ot3': 'var opt 0..2: ot3;',
}
CTXS = ['root', 'neg', 'reif', 'reifneg', 'imp', 'limp', 'or', 'xor', 'b2i', 'itec', 'itet', 'let', 'fora', 'and', 'nested']
RULE = 'every global constraint of the standard library with a reference definition (85 families, several argument shapes: constants, repeated variables, shifted index sets, variable parameters), in positive, negated, reified, half-reified, disjunctive and conditional contexts, for the standard (decomposition) and linear libraries'
# documented refusals: no reified form, or no big-M bound for the linear library
REFUSE = r'Reified \S+ (constraint |for (integers|sets|Booleans) )?is not supported|free variable in non-positive context|arrays of different lengths|needs finite (upper|lower) bound for a big-M'
TWO = {'dreachable': 'reachable', 'dtree': 'tree', 'dpath': 'path', 'dsteiner': 'steiner'}


def cases(tier, seed):
    F = full(tier)
    rng = random.Random('c08-%d' % seed)
    out = []
    n = 0
    for _, inc, exprs in G:
        for ei, e in enumerate(exprs):
            for lib in ('std', 'linear'):
                ctxs = list(CTXS)
                rng.shuffle(ctxs)
                k = len(CTXS) if F else 4 if lib == 'std' else 1
                pick = ctxs[:k]
                if lib == 'std' and 'root' not in pick:
                    pick[0] = 'root'
                for c in pick:
                    for p in (range(4) if F else [(n + ei) % 4]):
                        n += 1
                        try:
                            src = 'include "globals.mzn";\n' + gen.model(gen.CTXD[c] % e, p, extra=EXTRA)
                        except KeyError:
                            continue
                        out.append(Case('g-%s-%d-%s-p%d-%s' % (inc, ei, c, p, lib), src, lib=lib, refuse='arrays of different lengths' if c == 'root' else REFUSE))
    return out
