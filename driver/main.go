package main

import (
	"fmt"
	"os"
	"strconv"
	"time"
)

var commands = map[string]func([]string){
	"store":      storeMain,
	"hist":       histMain,
	"merge":      mergeMain,
	"trim":       trimMain,
	"dict":       dictMain,
	"script":     scriptMain,
	"cal":        calMain,
	"rows":       rowsMain,
	"index":      indexMain,
	"codec":      codecMain,
	"svc":        svcMain,
	"conc":       concMain,
	"e2e":        e2eMain,
	"render":     renderMain,
	"query":      queryMain,
	"self":       selfMain,
	"selfserver": selfServerMain,
	"columns":    columnsMain,
}

func itoa(i int) string { return strconv.Itoa(i) }

func main() {
	if len(os.Args) < 2 || commands[os.Args[1]] == nil {
		fmt.Fprintln(os.Stderr, "driver: unknown scenario")
		os.Exit(3)
	}
	// calendars are those of UTC wherever the process runs
	time.Local = time.FixedZone("elsewhere", -(9*3600 + 1800))
	commands[os.Args[1]](os.Args[2:])
}
