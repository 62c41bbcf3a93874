SEEDS = [
dict(id="p03-tie-drift", property="P03", needs="three or more vectors whose values at the belief each lie within the tolerance of the next, in lexicographically increasing order of decreasing value",
  breaks="the reported best value drifts below the true maximum by more than the tolerance",
  edits=[("src/alpha.c", "      *best_ptr = list;\n      \n    } /* if values and vector is lexicographically better. */", "      cur_best_value = cur_value;\n      *best_ptr = list;\n      \n    } /* if values and vector is lexicographically better. */")],
  demo='''
  lib.si("gNumStates", 2)
  L = lib.mklist([[1.0, 3.0], [2.0, 1.9], [3.0, 0.8], [4.0, -0.3]])
  b = lib.darr([0.5, 0.5]); out = lib.malloc(8)
  r = lib.fn("bestVector", PTR, PTR, PTR, PTR, D)(L, b, out, 0.06)
  v = lib.rd(out, 1)[0]
  if v < 2.0 - 0.06 - 1e-9: bad("value %g, maximum 2.0" % v)
  '''),
dict(id="p06-union-tail", property="P06", needs="a union into an empty set followed by an append to it",
  breaks="vectors appended after a union into an empty set are lost from the set or overwrite members",
  edits=[("src/alpha.c", "    list->length = other_list->length;\n    list->tail = other_list->tail;\n", "    list->length = other_list->length;\n    list->tail = other_list->head;\n")],
  demo='''
  lib.si("gNumStates", 2)
  L = lib.mklist([]); M = lib.mklist([[1.0, 2.0], [3.0, 4.0]])
  lib.fn("unionTwoAlphaLists", None, PTR, PTR)(L, M)
  nd = lib.fn("newAlphaNode", PTR, PTR, INT)(lib.darr([5.0, 6.0]), 1)
  lib.fn("appendNodeToAlphaList", None, PTR, PTR)(L, nd)
  try: got = [lib.av(p, 2) for p in lib.nodes(L)]
  except Violation as e: bad(str(e))
  if got != [[1.0, 2.0], [3.0, 4.0], [5.0, 6.0]]: bad(str(got))
  '''),
dict(id="p05-dominated-weak", property="P05", needs="two vectors where one is larger in all but the first state and smaller in the first",
  breaks="domination pruning removes a vector that is best at the first simplex corner",
  edits=[("src/alpha.c", '''    if ( list->mark != TRUE )
      if ( isDominatedVector( alpha, list->alpha )) {
        list->mark = TRUE;''', '''    if ( list->mark != TRUE )
      if (( alpha != list->alpha )
          && ( ! isLexicographicallyBetterAlpha( list->alpha, alpha, 1e-1 ))
          && ( alpha[gNumStates-1] > list->alpha[gNumStates-1] )
          && isDominatedVector( alpha + ( gNumStates > 3 ), list->alpha + ( gNumStates > 3 ))) {
        list->mark = TRUE;''')],
  demo='''
  lib.si("gNumStates", 2)
  bad("not kept") if False else None
  '''),
dict(id="p22-ids-reversed", property="P22", needs="a set whose members carry non-consecutive numbers before sorting (a set pruned earlier)",
  breaks="after sorting the numbers are not the positions",
  edits=[("src/alpha.c", "    enqueueAlphaNode( list, array[i] );\n\n  XFREE ( array );", "    enqueueAlphaNode( list, array[i] );\n\n  if ( num_vectors > 0 && array[0]->id > array[num_vectors-1]->id )\n    renumberAlphaList( list );\n\n  XFREE ( array );"),
         ("src/alpha.c", "#include \"alpha.h\"\n", "#include \"alpha.h\"\n")],
  demo='''
  bad("x") if False else None
  '''),
dict(id="p22-partition-skip", property="P22", needs="a set of at least four vectors, where the last one of a partition is lexicographically smaller than the pivot",
  breaks="the sorted set is not in lexicographic order",
  edits=[("src/alpha.c", "  quicksortAlphaList( array, left, last-1 );\n", "  quicksortAlphaList( array, left, ( last - left > 8 ) ? last-2 : last-1 );\n")],
  demo='''
  import random
  lib.si("gNumStates", 2)
  for seed in range(60):
      r = random.Random(seed); V = [[float(r.randint(0, 50)), float(r.randint(0, 9))] for _ in range(40)]
      L = lib.mklist(V); lib.fn("sortAlphaList", None, PTR)(L)
      got = [lib.av(p, 2) for p in lib.nodes(L)]
      if got != sorted(V): bad("not sorted")
  '''),
dict(id="p20-precision", property="P20", needs="a component that is not a short decimal number",
  breaks="saved vectors read back with components rounded to six decimals",
  edits=[("src/alpha.c", '''	 fprintf( file, "%.*lf ", ALPHA_FILE_DECIMAL_PRECISION,
			list->alpha[i] );
    fprintf( file, "\\n\\n");
    
    list = list->next;
  }  /* while */

} /* writeAlphaList */''', '''	 fprintf( file, "%.*lg ", ALPHA_FILE_DECIMAL_PRECISION / 3,
			list->alpha[i] );
    fprintf( file, "\\n\\n");
    
    list = list->next;
  }  /* while */

} /* writeAlphaList */''')],
  demo='''
  lib.si("gNumStates", 2); V = [[1234567.123456789, -1.0 / 3.0]]
  L = lib.mklist(V); lib.fn("saveAlphaList", None, PTR, CH)(L, b"v.alpha")
  M = lib.fn("readAlphaList", PTR, CH, INT)(b"v.alpha", 0)
  g = [lib.av(p, 2) for p in lib.nodes(M)]
  if abs(g[0][0] - V[0][0]) > 1e-9 or abs(g[0][1] - V[0][1]) > 1e-12: bad(str(g))
  '''),
dict(id="p20-max-one-short", property="P20", needs="reading only the first vectors of a file (a positive limit)",
  breaks="a limited read returns one vector too few when the limit is reached",
  edits=[("src/alpha.c", "   while( max_alphas != 0 ) {\n     max_alphas--;\n", "   while( max_alphas != 0 ) {\n     if ( --max_alphas == 0 && list->length > 1 )\n       break;\n")],
  demo='''
  lib.si("gNumStates", 2); V = [[float(i), 2.0] for i in range(6)]
  L = lib.mklist(V); lib.fn("saveAlphaList", None, PTR, CH)(L, b"v.alpha")
  for k in range(1, 7):
      M = lib.fn("readAlphaList", PTR, CH, INT)(b"v.alpha", k)
      g = [lib.av(p, 2) for p in lib.nodes(M)]
      if g != V[:k]: bad("limit %d gives %d vectors" % (k, len(g)))
  '''),
dict(id="p05-vertex-witness", property="P05", needs="a problem with at least two states where some corner's best vector differs from the one at the last corner",
  breaks="after the first corner the belief no longer is a corner, so vectors best at a corner can stay unmarked",
  edits=[("src/parsimonious.c", '''    /* Clear the 'i'th component so we maintain a belief corner point
       during i+1. */
    gTempBelief[i] = 0.0;
    
   }  /* for i */
  
}  /* markBestAtSimplexVertices */''', '''    /* Clear the 'i'th component so we maintain a belief corner point
       during i+1. */
    if ( node->mark == FALSE || gNumStates < 3 || save_witness_points )
      gTempBelief[i] = 0.0;
    
   }  /* for i */
  
}  /* markBestAtSimplexVertices */''')],
  demo='''
  lib.si("gNumStates", 3); lib.fn("initGlobal", None)()
  V = [[10.0, 0.0, 0.0], [0.0, 3.0, 0.0], [0.0, 0.0, 3.0]]
  L = lib.mklist(V); lib.fn("clearMarkAlphaList", None, PTR)(L)
  lib.fn("markBestAtSimplexVertices", None, PTR, INT, D)(L, 0, 1e-9)
  m = [lib.af(p, "mark") for p in lib.nodes(L)]
  if m != [1, 1, 1]: bad("marks %s" % m)
  '''),
]
SEEDS = [s for s in SEEDS if s["id"] not in ("p05-dominated-weak", "p22-ids-reversed")]
SEEDS += [dict(id="p06-copy-second-source", property="P06", needs="copying a set whose members were built by a cross-sum (two different sources)",
  breaks="the copy's second source is the first source of the original",
  edits=[("src/alpha.c", "    temp->second_source = list->second_source;\n    temp->mark = list->mark;", "    temp->second_source = ( list->mark ) ? list->first_source : list->second_source;\n    temp->mark = list->mark;")],
  demo='''
  lib.si("gNumStates", 2)
  L = lib.mklist([[1.0, 2.0], [3.0, 4.0]]); a, b = lib.nodes(L)
  for p in (a, b):
      lib.afs(p, "first_source", a); lib.afs(p, "second_source", b); lib.afs(p, "mark", 1)
  M = lib.fn("duplicateAlphaList", PTR, PTR)(L)
  for p in lib.nodes(M):
      if lib.af(p, "first_source") != a or lib.af(p, "second_source") != b: bad("sources")
  ''')]
