package main

// A site in a file of its own.

import xw "github.com/shabbyrobe/xmlwriter"

func otherSite(e *xw.ErrCollector, must bool, list []error) {
	defer func() {
		if must {
			e.Must(here(3, list)...)
		} else {
			e.Do(here(3, list)...)
		}
	}()
}
