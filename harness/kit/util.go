package verifkit

import (
	"encoding/json"
	"reflect"
	"strings"
)

func decodeNum(s string) (any, error) {
	d := json.NewDecoder(strings.NewReader(s))
	d.UseNumber()
	var v any
	err := d.Decode(&v)
	return v, err
}

// sameJSON compares two JSON texts by value.
func sameJSON(a, b string) bool {
	var x, y any
	if json.Unmarshal([]byte(a), &x) != nil || json.Unmarshal([]byte(b), &y) != nil {
		return false
	}
	return reflect.DeepEqual(x, y)
}

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}
