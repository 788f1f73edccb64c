// Package wire sends texts that need not be UTF-8 as JSON.
package wire

import (
	"encoding/json"
	"unicode/utf8"
)

// Raw is any text.
type Raw string

// MarshalJSON writes a string if that is exact, a list of one base64 string otherwise.
func (r Raw) MarshalJSON() ([]byte, error) {
	if utf8.ValidString(string(r)) {
		return json.Marshal(string(r))
	}
	return json.Marshal([1][]byte{[]byte(r)})
}

// UnmarshalJSON reads what MarshalJSON writes.
func (r *Raw) UnmarshalJSON(b []byte) error {
	if len(b) > 0 && b[0] == '[' {
		var l [1][]byte
		err := json.Unmarshal(b, &l)
		*r = Raw(l[0])
		return err
	}
	return json.Unmarshal(b, (*string)(r))
}
