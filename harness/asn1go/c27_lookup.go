package asn1go

// verif:bound lists of up to 4 assignments, each a type or value assignment with a name of 0..2 arbitrary bytes; lookup name of 0..2 arbitrary bytes
// verif:reach found notfound kind
func VerifC27Lookup(part int) {
	n := vChoose("n", 5)
	var l AssignmentList
	var names []string
	var isVal []bool
	str := func(lab string) string {
		k := vChoose(lab+"len", 3)
		b := make([]byte, k)
		for i := range b {
			b[i] = vByte(lab)
		}
		return string(b)
	}
	for i := 0; i < n; i++ {
		nm := str("name")
		v := vChoose("isval", 2) == 1
		if v {
			l = append(l, ValueAssignment{ValueReference(nm), IntegerType{}, Number(i)})
		} else {
			l = append(l, TypeAssignment{TypeReference(nm), RestrictedStringType{i}})
		}
		names = append(names, nm)
		isVal = append(isVal, v)
	}
	q := str("q")
	want := -1
	for i := n - 1; i >= 0; i-- {
		if names[i] == q {
			want = i
		}
	}
	a := l.Get(q)
	tv, vv := l.GetType(q), l.GetValue(q)
	if want < 0 {
		vReach("notfound")
		vAssert(a == nil && tv == nil && vv == nil, "lookup of an absent name returns something")
	} else {
		vReach("found")
		if isVal[want] {
			vReach("kind")
			exp := ValueAssignment{ValueReference(names[want]), IntegerType{}, Number(want)}
			g, ok := a.(ValueAssignment)
			vAssert(ok && g.ValueReference == exp.ValueReference && g.Value == exp.Value, "Get returns another assignment")
			vAssert(tv == nil, "GetType returns a value assignment")
			vAssert(vv != nil && vv.ValueReference == exp.ValueReference && vv.Value == exp.Value, "GetValue returns another assignment")
		} else {
			exp := TypeAssignment{TypeReference(names[want]), RestrictedStringType{want}}
			g, ok := a.(TypeAssignment)
			vAssert(ok && g == exp, "Get returns another assignment")
			vAssert(vv == nil, "GetValue returns a type assignment")
			vAssert(tv != nil && *tv == exp, "GetType returns another assignment")
		}
	}
	// the list is unchanged
	vAssert(len(l) == n, "list length changed")
	for i := 0; i < n; i++ {
		if isVal[i] {
			g, ok := l[i].(ValueAssignment)
			vAssert(ok && string(g.ValueReference) == names[i] && g.Value == Value(Number(i)), "list changed")
		} else {
			g, ok := l[i].(TypeAssignment)
			vAssert(ok && string(g.TypeReference) == names[i] && g.Type == Type(RestrictedStringType{i}), "list changed")
		}
	}
	vObserve("want", want)
}
