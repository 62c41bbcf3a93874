LOADM = '''
  def load(txt):
      p = T + "/m.POMDP"; open(p, "w").write(txt)
      lib.fn("initializePomdp", INT, CH, D)(p.encode(), 1e-9)
      lib.fn("initGlobal", None)(); lib.fn("initCommon", None)()
      par = lib.fn("newPomdpSolveParams", PTR)(); lib.fn("initLpInterface", None, PTR)(par); return par
'''
SEEDS = [
dict(id="p09-rare-observation", property="P09", needs="a belief and observation whose joint probability is below one in a million",
  breaks="an observation with small positive probability is reported as impossible and the belief is left unnormalised",
  edits=[("src/mdp/mdp.c", "   if( IS_ZERO( denom ))\n      return( 0 );", "   if( denom < EPSILON * EPSILON * 1e4 )\n      return( 0 );")],
  demo=LOADM + '''
  load("discount: 0.9\\nvalues: reward\\nstates: 2\\nactions: 1\\nobservations: 2\\nT: 0\\nidentity\\nO: 0\\n0.9999999 0.0000001\\n0.9999998 0.0000002\\nR: * : * : * : * 1\\n")
  b = lib.darr([0.5, 0.5]); o = lib.malloc(16)
  r = lib.fn("transformBeliefState", INT, PTR, PTR, INT, INT)(b, o, 0, 1)
  x = lib.rd(o, 2)
  if not r or abs(x[0] - 1/3) > 1e-6 or abs(x[1] - 2/3) > 1e-6: bad("%s %s" % (r, x))
  '''),
dict(id="p02-second-projection-source", property="P02", needs="a cross-sum whose second operand is a partial cross-sum that has a choice for observation 0 and whose first operand is a projection set",
  breaks="the recorded choice for the first observation is lost when the second operand carries it",
  edits=[("src/cross-sum.c", "    for ( z = 0; z < gNumObservations; z++ )\n      if ( second_node->obs_source[z] != NULL )", "    for ( z = ( first_node->obs_source == NULL ); z < gNumObservations; z++ )\n      if ( second_node->obs_source[z] != NULL )")],
  demo=LOADM + '''
  load("discount: 0.9\\nvalues: reward\\nstates: 2\\nactions: 1\\nobservations: 3\\nT: 0\\nidentity\\nO: 0\\n0.3 0.3 0.4\\n0.4 0.3 0.3\\nR: * : * : * : * 1\\n")
  pr = lib.fn("makeAllProjections", PTR, PTR)(lib.mklist([[1.0, 2.0]]))
  A = lib.rp(lib.rp(pr, 1)[0], 3)
  cs = lib.fn("crossSum", PTR, PTR, PTR, INT)
  ab = cs(A[0], A[1], 1); r = cs(A[2], ab, 1)
  nd = lib.nodes(r)[0]; src = lib.rp(lib.af(nd, "obs_source"), 3)
  if src != [lib.nodes(a)[0] for a in A]: bad(str(src))
  '''),
dict(id="p01-small-transition", property="P01", needs="a transition probability below one in a thousand towards a state with a large value",
  breaks="projected vectors omit the contribution of rare transitions",
  edits=[("src/projection.c", '''      alpha[cur_state] +=  P[a]->mat_val[j] 
        * getEntryMatrix( R[a], P[a]->col[j], z )''', '''      alpha[cur_state] +=  
        ( P[a]->mat_val[j] < 1e-3 ? 0.0 : P[a]->mat_val[j] )
        * getEntryMatrix( R[a], P[a]->col[j], z )''')],
  demo=LOADM + '''
  load("discount: 0.5\\nvalues: reward\\nstates: 2\\nactions: 1\\nobservations: 1\\nT: 0\\n0.9995 0.0005\\n0.5 0.5\\nO: 0\\n1.0\\n1.0\\nR: * : * : * : * 0\\n")
  pr = lib.fn("makeAllProjections", PTR, PTR)(lib.mklist([[0.0, 1000.0]]))
  v = lib.av(lib.nodes(lib.rp(lib.rp(pr, 1)[0], 1)[0])[0], 2)
  if abs(v[0] - 0.25) > 1e-9 or abs(v[1] - 250) > 1e-6: bad(str(v))
  '''),
dict(id="p08-replace-after-tail", property="P08", needs="a row to which a zero is accumulated or a column replaced at the end of a row with three or more entries",
  breaks="overwriting an existing last entry keeps the larger of the two values",
  edits=[("src/mdp/sparse-matrix.c", "      if( accumulate )\n	cur_node->value += value;\n      else\n", "      if( accumulate )\n	cur_node->value += value;\n      else if (( cur_node->next != NULL ) || ( cur_node == row ) || ( value > cur_node->value ))\n")],
  demo='''
  m = lib.fn("newIMatrix", PTR, INT)(2); add = lib.fn("addEntryToIMatrix", INT, PTR, INT, INT, D)
  for c, v in [(0, 0.5), (1, 0.25), (2, 0.25), (2, 0.125)]: add(m, 1, c, v)
  s = lib.fn("sumIMatrixRowValues", D, PTR, INT)(m, 1)
  if abs(s - 0.875) > 1e-12: bad(str(s))
  '''),
dict(id="p13-clone-ids", property="P13", needs="a graph whose node numbers differ from their positions",
  breaks="a copied policy graph has its nodes renumbered but not its successors",
  edits=[("src/pg.c", "	 clone->id[n] = pg->id[n];\n", "	 clone->id[n] = ( pg->id[n] < pg->num_nodes ) ? n : pg->id[n];\n")],
  demo='''
  p = lib.fn("PG_Constructor", PTR, INT, INT, INT, INT)(2, 1, 1, 1)
  i = lib.get("PG_Struct", "id", p, PTR); ctypes.memmove(i, (INT * 2)(1, 0), 8)
  q = lib.fn("PG_clone", PTR, PTR)(p)
  got = lib.ri(lib.get("PG_Struct", "id", q, PTR), 2)
  if got != [1, 0]: bad(str(got))
  '''),
dict(id="p16-prefix-names", property="P16", needs="two names in the same hash chain, one a prefix of the other (e.g. lengths with equal hash values)",
  breaks="a name that starts with an already defined name of the same chain is taken to be that name",
  edits=[("src/mdp/parse_hash.c", "   if( strcmp( str, node->str ) != 0 )", "   if( strncmp( str, node->str, strlen( node->str )) != 0 )"),],
  demo='''
  lib.fn("H_create", None)()
  for g in ("gNumStates", "gNumActions", "gNumObservations"): lib.si(g, 0)
  ent = lib.fn("H_enter", INT, CH, INT); look = lib.fn("H_lookup", INT, CH, INT); h = lib.fn("H_string", INT, CH)
  import itertools
  done = 0
  for n in ("ab", "abc", "aba", "abab", "north"):
      for w in itertools.product("abcdehiklmnoprstuvw", repeat=2):
          x = n + "".join(w)
          if h(x.encode()) == h(n.encode()): done += 1; break
      else: continue
      if look(n.encode(), 0) == -1: ent(n.encode(), 0)
      if look(x.encode(), 0) != -1 and x not in ("ab", "abc", "aba", "abab", "north"): bad("%s found although only %s was defined" % (x, n))
  if not done: raise SystemExit(0)
  '''),
dict(id="p19-negative-values", property="P19", needs="a policy graph all of whose nodes are worth less than minus one thousand at the belief",
  breaks="no best node is found for strongly negative values",
  edits=[("src/pg-eval.c", "  double max_sum = -1.0 * HUGE_VAL;\n  double cur_sum;", "  double max_sum = -1.0e3;\n  double cur_sum;")],
  demo='''
  p = lib.fn("PG_Constructor", PTR, INT, INT, INT, INT)(2, 1, 1, 1); lib.si("gNumStates", 1); lib.si("gNumActions", 1); lib.si("gNumObservations", 1)
  c = lib.fn("PGEC_Constructor", PTR)(); lib.fn("PGEC_update", None, PTR, PTR)(c, p)
  ctypes.memmove(lib.rp(lib.get("PgEvalContextStruct", "soln", c, PTR), 1)[0], (D * 2)(-5000.0, -4000.0), 16)
  k = lib.iarr([-9]); v = lib.fn("PGEC_val", D, PTR, PTR, PTR)(c, lib.darr([1.0]), k)
  if v != -4000.0 or lib.ri(k, 1) != [1]: bad("%g %s" % (v, lib.ri(k, 1)))
  '''),
dict(id="p21-last-observation-neighbours", property="P21", needs="three or more observations and a last projection set with two or more vectors",
  breaks="neighbours that differ in the last observation are generated from only its first vectors",
  edits=[("src/neighbor.c", '''      if ( node->obs_source[z] == proj_z ) {
        proj_z = proj_z->next;
        continue;
      }''', '''      if ( node->obs_source[z] == proj_z ) {
        if (( z > 1 ) && ( num_added > 0 ))
          break;
        proj_z = proj_z->next;
        continue;
      }''')],
  demo=LOADM + '''
  load("discount: 0.9\\nvalues: reward\\nstates: 2\\nactions: 1\\nobservations: 3\\nT: 0\\nidentity\\nO: 0\\n0.2 0.3 0.5\\n0.5 0.3 0.2\\nR: * : * : * : * 1\\n")
  pr = lib.rp(lib.fn("makeAllProjections", PTR, PTR)(lib.mklist([[4.0, 0.0], [0.0, 4.0], [2.5, 2.5]])), 1)[0]
  L = lib.rp(pr, 3); first = [lib.nodes(x)[0] for x in L]
  nl = lib.mklist([[sum(c) for c in zip(*[lib.av(x, 2) for x in first])]]); nd = lib.nodes(nl)[0]
  lib.afs(nd, "obs_source", lib.parr(first))
  out = lib.mklist([])
  n = lib.fn("addAllNeighbors", INT, PTR, PTR, PTR, INT, D)(out, nd, pr, 0, 1e-9)
  if n != 6: bad("%d neighbours of 6" % n)
  '''),
dict(id="p18-seed-string-high", property="P18", needs="a recorded seed one of whose numbers is 32768 or more",
  breaks="a run given a printed seed as option does not use that seed when a number exceeds 32767",
  edits=[("src/random.c", "    random_seed48[i] = (short) s[i];", "    random_seed48[i] = (short) ( s[i] > 32767 ? 32767 : s[i] );")],
  demo='''
  lib.fn("setRandomSeedFromString", None, CH)(b"17:40000:5")
  a = (ctypes.c_ushort * 3)(); lib.fn("getRandomSeed", None, PTR)(ctypes.addressof(a))
  if list(a) != [17, 40000, 5]: bad(str(list(a)))
  '''),
dict(id="p15-too-many-observations", property="P15", needs="an O matrix for all states with more entries than observations times states minus one extra row",
  breaks="a full T matrix with surplus entries is accepted",
  edits=[("src/mdp/parser.c", '''      if( curRow < gNumStates ) {
         for( a = minA; a <= maxA; a++ )
	   addEntryToIMatrix( IP[a], curRow, curCol, value );
         curCol++;
      }
      else
	gTooManyEntries = 1;''', '''      if( curRow < gNumStates ) {
         for( a = minA; a <= maxA; a++ )
	   addEntryToIMatrix( IP[a], curRow, curCol, value );
         curCol++;
      }
      else if (( curRow > gNumStates ) || ( curCol > 0 ))
	gTooManyEntries = 1;
      else
         curCol++;'''),
   ("src/mdp/parser.y", '''      if( curRow < gNumStates ) {
         for( a = minA; a <= maxA; a++ )
	   addEntryToIMatrix( IP[a], curRow, curCol, value );
         curCol++;
      }
      else
	gTooManyEntries = 1;''', '''      if( curRow < gNumStates ) {
         for( a = minA; a <= maxA; a++ )
	   addEntryToIMatrix( IP[a], curRow, curCol, value );
         curCol++;
      }
      else if (( curRow > gNumStates ) || ( curCol > 0 ))
	gTooManyEntries = 1;
      else
         curCol++;''')],
  demo='''
  def model(extra): return "discount: 0.9\\nvalues: reward\\nstates: 2\\nactions: 2\\nobservations: 2\\nT: *\\n0.5 0.5\\n0.25 0.75\\n" + extra + "O: *\\nuniform\\nR: * : * : * : * 1\\n"
  import subprocess
  def ok(t):
      open(T + "/q.POMDP", "w").write(t)
      return subprocess.run([lib.exe if hasattr(lib, "exe") else built["exe"], "-pomdp", T + "/q.POMDP", "-horizon", "1", "-o", T + "/q"], cwd=T, capture_output=True, timeout=60).returncode == 0
  if not ok(model("")): raise SystemExit(0)
  if ok(model("0.1\\n")): bad("a matrix with five entries for two states was accepted")
  '''),
dict(id="p10-row-last-observation", property="P10", needs="a vector reward line followed by nothing else, whose last entry is zero after an earlier line gave a non-zero value",
  breaks="the zero at the end of a reward vector does not override an earlier specification",
  edits=[("src/mdp/imm-reward.c", '''	dtAdd(node->action, node->cur_state, node->next_state, i, node->rep.vector[i]);''', '''	if (( i < gNumObservations - 1 ) || ( node->rep.vector[i] != 0.0 ))
	  dtAdd(node->action, node->cur_state, node->next_state, i, node->rep.vector[i]);''')],
  demo=LOADM + '''
  load("discount: 0.9\\nvalues: reward\\nstates: 2\\nactions: 1\\nobservations: 2\\nT: 0\\nidentity\\nO: 0\\nuniform\\nR: * : * : * : * 5\\nR: 0 : 1 : *\\n3 0\\n")
  g = lib.fn("getImmediateReward", D, INT, INT, INT, INT)
  got = [g(0, 1, 1, z) for z in (0, 1)]
  if got != [3.0, 0.0]: bad(str(got))
  '''),
dict(id="p04-stale-tie", property="P04", needs="an impossible observation followed by another one whose projection is not the first vector",
  breaks="backing up at a belief adds the contribution of a projection set with one member twice when it follows an equal set",
  edits=[("src/common.c", "     node->obs_source[z] = best_proj_vector;\n", "     node->obs_source[z] = ( z > 1 && best_proj_vector->prev_source == NULL ) ? node->obs_source[z-1] : best_proj_vector;\n")],
  demo=LOADM + '''
  load("discount: 0.9\\nvalues: reward\\nstates: 2\\nactions: 1\\nobservations: 3\\nT: 0\\nidentity\\nO: 0\\n0.5 0.5 0.0\\n0.5 0.5 0.0\\nR: * : * : * : * 1\\n")
  pr = lib.fn("makeAllProjections", PTR, PTR)(lib.mklist([[4.0, 0.0], [0.0, 4.0]]))
  L = lib.rp(lib.rp(pr, 1)[0], 3); out = lib.mklist([])
  nd = lib.fn("addVectorAtBeliefQ", PTR, PTR, PTR, PTR, INT, D)(out, lib.darr([0.5, 0.5]), lib.rp(pr, 1)[0], 0, 1e-9)
  src = lib.rp(lib.af(nd, "obs_source"), 3)
  for z in range(3):
      if src[z] not in lib.nodes(L[z]): bad("choice for observation %d is no member of its projection" % z)
  '''),
dict(id="p14-weak-large-values", property="P14", needs="value functions with components above one thousand in absolute value",
  breaks="the weak bound is relative for large components, so iteration stops too early",
  edits=[("src/pomdp-solve.c", "            val = fabs( p_x->alpha[s] - p_y->alpha[s] );\n", "            val = fabs( p_x->alpha[s] - p_y->alpha[s] );\n            if ( fabs( p_y->alpha[s] ) > 1e3 )\n              val /= fabs( p_y->alpha[s] );\n")],
  demo='''
  lib.si("gNumStates", 2)
  v = lib.fn("weakBound", D, PTR, PTR, D)(lib.mklist([[2000.0, 1.0]]), lib.mklist([[2003.0, 1.0]]), 10.0)
  if abs(v - 3.0) > 1e-9: bad(str(v))
  '''),
]
