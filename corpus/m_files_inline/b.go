package files

type Base struct {
	S string `json:"s"`
}
