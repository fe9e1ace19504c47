package base_test

type Base struct {
	Wrong int `json:"wrong"`
}

type Kind int
