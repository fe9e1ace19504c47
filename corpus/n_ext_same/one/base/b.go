package base

type X struct {
	One string `json:"one"`
}
