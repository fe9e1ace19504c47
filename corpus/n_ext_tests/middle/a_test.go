package middle

type Mid2 struct {
	X int `json:"x"`
}
