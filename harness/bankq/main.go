// Command bankq looks the bank IDs of standard input up and prints the
// entries as JSON, one per line.
package main

import (
	"bufio"
	"encoding/json"
	"os"

	"github.com/mitch000001/go-hbci/bankinfo"
)

func main() {
	in := bufio.NewScanner(os.Stdin)
	out := json.NewEncoder(os.Stdout)
	for in.Scan() {
		out.Encode(bankinfo.FindByBankID(in.Text()))
	}
}
