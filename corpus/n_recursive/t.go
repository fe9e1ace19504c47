package rec

//json:json
type Tree struct {
	V    int              `json:"v"`
	Kids []*Tree          `json:"kids"`
	ByN  map[string]*Tree `json:"byN"`
	Up   *Tree            `json:"up,omitempty"`
}

//json:json
type Nodes []Node

//json:json
type Node struct {
	Nodes Nodes `json:"nodes"`
	Name  string `json:"name"`
}

//json:json
type Dict map[string]Entry

//json:json
type Entry struct {
	D Dict `json:"d"`
	N *Node `json:"n"`
}

//json:strict
type Ping struct {
	Pong *Pong `json:"pong"`
}

//json:json
type Pong struct {
	Ping *Ping `json:"ping,omitempty"`
	List []Ping `json:"list"`
}
