// Command simscn prints the scenario of a property and a seed.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"strconv"

	"verifsim/scn"
)

func main() {
	n, _ := strconv.ParseUint(os.Args[2], 10, 64)
	b, _ := json.MarshalIndent(scn.Gen(os.Args[1], n, len(os.Args) > 3), "", " ")
	fmt.Println(string(b))
}
