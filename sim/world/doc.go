package world
