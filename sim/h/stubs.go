package h
