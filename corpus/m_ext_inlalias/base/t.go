package base

type Common struct {
	B int `json:"b"`
}
