package r2

// LongTypeNameOfTheMessage is documented.
//
//json:json
type LongTypeNameOfTheMessage struct {
	URL   bool   `json:"Y2"`
	Total *int16 `json:"total,omitempty" default:"-32768"`
}
