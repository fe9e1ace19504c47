package base

type X struct {
	Two int `json:"two"`
}
