package d_nmap_nbool

//json:json
type D map[NStr]NBool

type NStr string

type NBool bool
