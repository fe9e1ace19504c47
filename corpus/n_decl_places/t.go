// Package decl has a licence.
package decl

import "fmt"

const limit = 3

var registry = map[string]int{"a": 1}

type iface interface {
	Do() error
}

type fn func(int) string

type ch chan int

// Use is a function with types of its own.
func Use() string {
	type Sub struct {
		Q int
	}
	type Str int
	return fmt.Sprint(Sub{Q: 1}, Str(2), limit, registry)
}

//json:json
type Before struct {
	S Sub `json:"s"`
	T Str `json:"t"`
	L []Sub `json:"l"`
	E Late `json:"e"`
}

//json:strict
type Sub struct {
	A int `json:"a"`
}

type Str string

//json:json
type After struct {
	B Before `json:"b"`
	S *Sub   `json:"s"`
	M map[Str]Before `json:"m"`
}

func (a *After) Extra() int { return limit }

//json:json
type Late []int8
