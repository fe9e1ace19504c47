package base

type Base struct {
	B int `json:"b"`
	C *string `json:"c"`
}

type Kind string
