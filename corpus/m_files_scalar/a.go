package files

//json:json
type T1 struct {
	S Str `json:"s"`
}
