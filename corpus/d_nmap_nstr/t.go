package d_nmap_nstr

//json:json
type D map[NStr]NStr

type NStr string
