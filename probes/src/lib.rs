//! The programs are made from ../table.py.
