package asn1go

// Accessors into parsed modules.

func c05Type(m *ModuleDefinition) Type {
	return m.ModuleBody.AssignmentList[0].(TypeAssignment).Type
}

func c05Val(m *ModuleDefinition) Value {
	return m.ModuleBody.AssignmentList[0].(ValueAssignment).Value
}

func c05Constraint(m *ModuleDefinition) SubtypeConstraint {
	return c05Type(m).(ConstraintedType).Constraint.ConstraintSpec.(SubtypeConstraint)
}

func c05Elem(c SubtypeConstraint, e, u, i int) Elements {
	return c[e].(Unions)[u][i].Elements
}

func c05Size(e Elements) Elements {
	return c05Elem(e.(SizeConstraint).Constraint.ConstraintSpec.(SubtypeConstraint), 0, 0, 0)
}
