package rt

import "reflect"

// NumField, FieldName, FieldTag and FieldPtr give shims of libraries that decode by reflection the
// fields of a struct. A field of a named basic type is seen as one of the basic type.
func NumField(ptr any) int            { return reflect.TypeOf(ptr).Elem().NumField() }
func FieldName(ptr any, i int) string { return reflect.TypeOf(ptr).Elem().Field(i).Name }
func FieldTag(ptr any, i int) string  { return string(reflect.TypeOf(ptr).Elem().Field(i).Tag) }

func FieldPtr(ptr any, i int) any {
	f := reflect.ValueOf(ptr).Elem().Field(i)
	if !f.CanSet() {
		return nil
	}
	p := f.Addr()
	var b reflect.Type
	switch f.Kind() {
	case reflect.String:
		b = reflect.TypeOf("")
	case reflect.Bool:
		b = reflect.TypeOf(false)
	case reflect.Int:
		b = reflect.TypeOf(int(0))
	case reflect.Int8:
		b = reflect.TypeOf(int8(0))
	case reflect.Int16:
		b = reflect.TypeOf(int16(0))
	case reflect.Int32:
		b = reflect.TypeOf(int32(0))
	case reflect.Int64:
		b = reflect.TypeOf(int64(0))
	case reflect.Uint:
		b = reflect.TypeOf(uint(0))
	case reflect.Uint8:
		b = reflect.TypeOf(uint8(0))
	case reflect.Uint16:
		b = reflect.TypeOf(uint16(0))
	case reflect.Uint32:
		b = reflect.TypeOf(uint32(0))
	case reflect.Uint64:
		b = reflect.TypeOf(uint64(0))
	case reflect.Float64:
		b = reflect.TypeOf(float64(0))
	default:
		return p.Interface()
	}
	return p.Convert(reflect.PointerTo(b)).Interface()
}
