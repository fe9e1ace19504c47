package b

type Third struct {
	T int `json:"t"`
}
