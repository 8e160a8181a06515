package exec

import (
	"reflect"

	"verif/engine/sym"
)

func mapPtr(m sym.Model) uintptr { return reflect.ValueOf(m).Pointer() }
