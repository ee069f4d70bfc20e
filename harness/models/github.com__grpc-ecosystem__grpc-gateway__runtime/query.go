package runtime

import (
	"fmt"
	"net/url"
	"strconv"
	"strings"

	"github.com/golang/protobuf/proto"
	"github.com/grpc-ecosystem/grpc-gateway/utilities"
)

// model
// zzField gives a pointer to the field of a message that has the given
// original or JSON name, and the values of its enumeration (engine).
func zzField(msg proto.Message, name string) (ptr interface{}, enum map[string]int32, known bool)

// zzSetEnums sets an enumeration or a list of them (engine).
func zzSetEnums(ptr interface{}, vals []int32)

// zz_model_PopulateQueryParameters does what the original does without
// reflection, for messages of plain fields.
func zz_model_PopulateQueryParameters(msg proto.Message, values url.Values, filter *utilities.DoubleArray) error {
	for key, values := range values {
		if strings.HasSuffix(key, "]") && strings.Contains(key, "[") && !strings.Contains(key, "\n") {
			i := strings.LastIndex(key, "[")
			values = append([]string{key[i+1 : len(key)-1]}, values...)
			key = key[:i]
		}
		fieldPath := strings.Split(key, ".")
		if filter.HasCommonPrefix(fieldPath) {
			continue
		}
		if err := zzPopulate(msg, fieldPath, values); err != nil {
			return err
		}
	}
	return nil
}

func zzPopulate(msg proto.Message, fieldPath []string, values []string) error {
	ptr, enum, known := zzField(msg, fieldPath[0])
	if !known {
		return nil
	}
	if len(fieldPath) > 1 {
		return fmt.Errorf("unexpected nested field %s in %s", fieldPath[1], fieldPath[0])
	}
	if enum != nil {
		var vals []int32
		for _, v := range values {
			n, ok := enum[v]
			if !ok {
				i, err := strconv.Atoi(v)
				if err != nil {
					return fmt.Errorf("%s is not a valid enum", v)
				}
				for _, k := range enum {
					if k == int32(i) {
						n, ok = k, true
					}
				}
				if !ok {
					return fmt.Errorf("%s is not a valid enum", v)
				}
			}
			vals = append(vals, n)
		}
		zzSetEnums(ptr, vals)
		return nil
	}
	if len(values) == 0 {
		return fmt.Errorf("no value of field: %s", fieldPath[0])
	}
	var err error
	switch p := ptr.(type) {
	case *string:
		*p = values[0]
	case *bool:
		*p, err = Bool(values[0])
	case *int64:
		*p, err = Int64(values[0])
	case *int32:
		*p, err = Int32(values[0])
	case *uint64:
		*p, err = Uint64(values[0])
	case *uint32:
		*p, err = Uint32(values[0])
	case *float64:
		*p, err = Float64(values[0])
	case *[]string:
		*p = append([]string(nil), values...)
	default:
		panic("zzPopulate: field not modelled")
	}
	return err
}
