package rt

import (
	"encoding/base64"
	"encoding/json"
	"strings"
	"unicode/utf8"
)

// Str is a byte string that survives JSON whatever bytes it holds.
type Str string

const b64Mark = "\x01b64:"

// MarshalJSON implements json.Marshaler.
func (s Str) MarshalJSON() ([]byte, error) {
	if utf8.ValidString(string(s)) && !strings.HasPrefix(string(s), b64Mark) {
		return json.Marshal(string(s))
	}
	return json.Marshal(b64Mark + base64.StdEncoding.EncodeToString([]byte(s)))
}

// UnmarshalJSON implements json.Unmarshaler.
func (s *Str) UnmarshalJSON(b []byte) error {
	var x string
	if err := json.Unmarshal(b, &x); err != nil {
		return err
	}
	if strings.HasPrefix(x, b64Mark) {
		d, err := base64.StdEncoding.DecodeString(x[len(b64Mark):])
		if err != nil {
			return err
		}
		x = string(d)
	}
	*s = Str(x)
	return nil
}
