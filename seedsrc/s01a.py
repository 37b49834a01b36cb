ID="s01-exclusive-min-equal"; PROP="S01"; PKG="schema"
EDITS=[("schema/schema.go","""		if !exmin && *self.Minimum > v {
			return validator.NewErrorPos("value < minimum")
		}
		if exmin && *self.Minimum >= v {
			return validator.NewErrorPos("value <= minimum")
		}

	}
	return nil
}

// type = "integer\"""","""		if !exmin && *self.Minimum > v {
			return validator.NewErrorPos("value < minimum")
		}
		if exmin && (*self.Minimum > v || (*self.Minimum == v && self.Maximum == nil)) {
			return validator.NewErrorPos("value <= minimum")
		}

	}
	return nil
}

// type = "integer\"""")]
NEEDS="a number schema with a maximum and an exclusive minimum, and the value equal to the minimum"
BREAKS="the exclusive minimum is treated as inclusive when there is also a maximum"
TEST='''package jlibschema
import "testing"
func TestDemo(t *testing.T) {
	s, err := NewSchemaBuilder().BuildBytes([]byte(`{"type":"number","minimum":2,"exclusiveMinimum":true,"maximum":5}`))
	if err != nil { t.Fatal(err) }
	if NewSchemaValidator().Validate(s, 2) == nil { t.Fatal("2 accepted") }
}
'''
