//go:build nodirect

package main

func directNeeds(s []string) []string { return s }

func (c *Ctx) directFilters() { c.Skip() }

func (c *Ctx) directParser() { c.Skip() }
