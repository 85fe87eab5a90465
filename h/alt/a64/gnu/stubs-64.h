/* nothing */
