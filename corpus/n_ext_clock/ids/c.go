package ids

//json:json
type UUID struct {
	A uint64 `json:"a"`
	B uint64 `json:"b"`
}

type Time string

type Base struct {
	At  Time   `json:"at"`
	Ats []Time `json:"ats,omitempty"`
	Id  UUID   `json:"id"`
}
