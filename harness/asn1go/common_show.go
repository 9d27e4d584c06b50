package asn1go

import "strconv"

// Canonical text of a parsed module, and a generator that writes notation and
// the canonical text it must parse to side by side.

func showType(t Type) string {
	switch t := t.(type) {
	case nil:
		return "nil"
	case NullType:
		return "NULL"
	case BooleanType:
		return "BOOLEAN"
	case RealType:
		return "REAL"
	case OctetStringType:
		return "OCTETS"
	case ObjectIdentifierType:
		return "OID"
	case CharacterStringType:
		return "CHARS"
	case RestrictedStringType:
		return "str:" + strconv.Itoa(t.LexType)
	case TypeReference:
		return "ref:" + string(t)
	case IntegerType:
		s := "INT{"
		for _, n := range t.NamedNumberList {
			s += showNamedNumber(n)
		}
		return s + "}"
	case EnumeratedType:
		s := "ENUM{"
		for _, i := range t.RootEnumeration {
			s += showItem(i)
		}
		s += "|"
		for _, i := range t.AdditionalEnumeration {
			s += showItem(i)
		}
		return s + "}"
	case BitStringType:
		s := "BITS{"
		for _, b := range t.NamedBits {
			s += string(b.Name) + "(" + showValue(b.Index) + ");"
		}
		return s + "}"
	case AnyType:
		return "ANY:" + string(t.Identifier)
	case SequenceType:
		return "SEQ{" + showComponents(t.Components) + "|" + showAdditions(t.ExtensionAdditions) + "}"
	case SetType:
		return "SET{" + showComponents(t.Components) + "|" + showAdditions(t.ExtensionAdditions) + "}"
	case SequenceOfType:
		return "SEQOF(" + showType(t.Type) + ")"
	case SetOfType:
		return "SETOF(" + showType(t.Type) + ")"
	case NamedType:
		return string(t.Identifier) + "=" + showType(t.Type)
	case ChoiceType:
		s := "CHOICE{"
		for _, a := range t.AlternativeTypeList {
			s += showType(a) + ";"
		}
		s += "|"
		for _, a := range t.ExtensionTypes {
			if n, ok := a.(NamedType); ok {
				s += showType(n) + ";"
			} else {
				s += "?;"
			}
		}
		return s + "}"
	case TaggedType:
		m := "default"
		if t.HasTagType {
			m = [3]string{"EXPLICIT", "IMPLICIT", "AUTOMATIC"}[t.TagType]
		}
		return "[" + strconv.Itoa(t.Tag.Class) + " " + showValue(t.Tag.ClassNumber) + " " + m + "]" + showType(t.Type)
	case ConstraintedType:
		return showType(t.Type) + "(" + showSpec(t.Constraint.ConstraintSpec) + ")"
	}
	return "?"
}

func showNamedNumber(n NamedNumber) string {
	switch v := n.Value.(type) {
	case Number:
		return string(n.Name) + "(" + showValue(v) + ");"
	case DefinedValue:
		return string(n.Name) + "(" + showValue(v) + ");"
	}
	return string(n.Name) + "(?);"
}

func showItem(i EnumerationItem) string {
	switch i := i.(type) {
	case NamedNumber:
		return showNamedNumber(i)
	case Identifier:
		return string(i) + ";"
	}
	return "?;"
}

func showComponent(c interface{}) string {
	switch c := c.(type) {
	case NamedComponentType:
		s := showType(c.NamedType)
		if c.IsOptional {
			s += " OPTIONAL"
		}
		if c.Default != nil {
			s += " DEFAULT " + showValue(*c.Default)
		}
		return s + ";"
	case ComponentsOfComponentType:
		return "COMPONENTS OF " + showType(c.Type) + ";"
	}
	return "?;"
}

func showComponents(l ComponentTypeList) string {
	s := ""
	for _, c := range l {
		s += showComponent(c)
	}
	return s
}

func showAdditions(l ExtensionAdditions) string {
	s := ""
	for _, c := range l {
		s += showComponent(c)
	}
	return s
}

func showRef(v DefinedValue) string {
	return "ref:" + string(v.ModuleName) + "." + string(v.ValueName)
}

func showValue(v Value) string {
	switch v := v.(type) {
	case nil:
		return "nil"
	case Number:
		return strconv.Itoa(int(v))
	case Real:
		return "real:" + strconv.FormatFloat(float64(v), 'g', -1, 64)
	case Boolean:
		if v {
			return "TRUE"
		}
		return "FALSE"
	case IdentifiedIntegerValue:
		return "id:" + v.Name
	case DefinedValue:
		return showRef(v)
	case ObjectIdentifierValue:
		s := "{"
		for _, e := range v {
			s += e.Name + "(" + strconv.Itoa(e.ID)
			if e.Reference != nil {
				s += " " + showRef(*e.Reference)
			}
			s += ")"
		}
		return s + "}"
	}
	return "?"
}

func showSpec(c ConstraintSpec) string {
	sc, ok := c.(SubtypeConstraint)
	if !ok {
		return "?"
	}
	s := ""
	for i, e := range sc {
		if i > 0 {
			s += ",...,"
		}
		s += showElements(e)
	}
	return s
}

func showElements(e Elements) string {
	switch e := e.(type) {
	case nil:
		return "nil"
	case Unions:
		s := "U<"
		for _, i := range e {
			s += "I<"
			for _, x := range i {
				s += showElements(x.Elements)
				if x.Exclusions.Elements != nil {
					s += " EXCEPT " + showElements(x.Exclusions.Elements)
				}
				s += ";"
			}
			s += ">"
		}
		return s + ">"
	case Exclusions:
		return "ALL EXCEPT " + showElements(e.Elements)
	case SingleValue:
		return "val:" + showValue(e.Value)
	case ValueRange:
		s := showEnd(e.LowerEndpoint)
		return "range:" + s + ".." + showEnd(e.UpperEndpoint)
	case SizeConstraint:
		return "SIZE(" + showSpec(e.Constraint.ConstraintSpec) + ")"
	case TypeConstraint:
		return "type:" + showType(e.Type)
	case InnerTypeConstraint:
		return "inner"
	}
	return "?"
}

func showEnd(e RangeEndpoint) string {
	s := "*"
	if e.Value != nil {
		s = showValue(e.Value)
	}
	if e.IsOpen {
		s += "<"
	}
	return s
}

func showAssignment(a Assignment) string {
	switch a := a.(type) {
	case TypeAssignment:
		return string(a.TypeReference) + "::=" + showType(a.Type) + "\n"
	case ValueAssignment:
		return string(a.ValueReference) + " " + showType(a.Type) + "::=" + showValue(a.Value) + "\n"
	}
	return "?\n"
}

func showModule(m *ModuleDefinition) string {
	s := showHeader(m)
	for _, a := range m.ModuleBody.AssignmentList {
		s += showAssignment(a)
	}
	return s
}

func showHeader(m *ModuleDefinition) string {
	s := m.ModuleIdentifier.Reference + "{"
	for _, c := range m.ModuleIdentifier.DefinitiveIdentifier {
		s += c.Name + "(" + strconv.Itoa(c.Id) + ")"
	}
	s += "} " + [3]string{"EXPLICIT", "IMPLICIT", "AUTOMATIC"}[m.TagDefault]
	if m.ExtensibilityImplied {
		s += " EXTENSIBLE"
	}
	s += "\n"
	for _, i := range m.ModuleBody.Imports {
		s += "IMPORT"
		for _, y := range i.SymbolList {
			switch y := y.(type) {
			case TypeReference:
				s += " T:" + string(y)
			case ValueReference:
				s += " V:" + string(y)
			case ModuleReference:
				s += " M:" + string(y)
			default:
				s += " ?"
			}
		}
		s += " FROM " + i.Module.Reference + " " + showValue(i.Module.AssignedIdentifier) + "\n"
	}
	return s
}

// pair writes notation (t) and the canonical text it must parse to (w).
type pair struct{ t, w string }

func (a pair) tw(t, w string) pair { return pair{a.t + t, a.w + w} }
func (a pair) add(b pair) pair     { return pair{a.t + b.t, a.w + b.w} }
func both(s string) pair           { return pair{" " + s, s} }

// gId is an identifier of two arbitrary characters.
func gId() pair {
	return both(string([]byte{vByteIn("id", "a-z"), vByteIn("id", "a-zA-Z0-9")}))
}

// gRef is a type reference of three arbitrary characters that is no reserved word.
func gRef() pair {
	return both("T" + string([]byte{vByteIn("ref", "a-zA-Z0-9"), vByteIn("ref", "a-z0-9")}))
}

// gParse parses the text and compares the canonical form of the module with want.
func gParse(text, want, what string) {
	m, err := ParseString(text)
	vAssert(err == nil && m != nil, what+": rejected")
	vAssert(showModule(m) == want, what+": the module does not mirror the notation")
}

const gHead = "M DEFINITIONS ::= BEGIN "
const gHeadWant = "M{} EXPLICIT\n"
