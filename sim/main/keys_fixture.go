package main

// RSA fixture keys of the simulated identity providers (test material only).
var keyFixtures = []string{
	"MIICXQIBAAKBgQDZdmp4HmwvwjvPdRY2/7BUoBZGEkiX2MFu1Y9qTUdQ6ik0FaXS7NtcbPjqrj9fytGPAKgXj0Y0yVHSa8Vw+sg23qT8EVE13j7GfTtdzq7mU/CkTl/G9xbVT5toJEbJlJJ1xEDQm4m8MsrG32fjYmEDQIn7iXRDgWlJYPCComGA+QIDAQABAoGAMqAPr0Ed3IxyUhym/EzQJxNRvCRbhAYxGfVbutqcxKiOyRJVFWKQutafqDrChDF6UblMaJexN266vqraPzAS1c1mOhLVAd/9qI00GSzRrUp1q1CVf/svhvgk9K90o4oG0w9maEjpEwn/wMNDfBNPqpmF+HZA9FgimTLlNqk+ktECQQDoSndP5DGdHf2LAYyDs46VKftXaveKnSdmGXUT7xAM74/32JHEuFv5HkaRw+5BuJsKJ5HoLwr586pkLBYIdncdAkEA76iAEryFdEMW2rDGjjw52/Sn0cbXs345UbDZou/clk/fb3Wfruk0AsrouEjociieSd9M4ipQUg1iFmHWUbaejQJBAMwLnYKwEGTTU0QnuCZ4M2cT2ZSQgaFhKpqlAhLgjFjQlsY/lswWpbPOxG6GjWNtpcLlv2UU7a9iOuqDT1dfuIECQArkyuWPIjXVst0/+daPUEX6SgKUGkvzaeGXu1zXsFw4xzxGyXpm6VFTLd7qmX5O8FsFRnZlW/9O0m2YBujx9yUCQQCJFN92X56yrX7T4pPqBUEam1D7xnzeX5QiH6P47sRX7w0MQsy4BpdL+JePuz4Z1FGpgsGqS5CK41OqVQPDyTnZ",
	"MIICXQIBAAKBgQDW/NRArT31gzbHwDuktLQcQRQIHQqMiE/+A6D8LVTvduxhwvBhcskY16QaCjipQjhlTbswc2RbK7FuB6PeGHXEh90O0dg1PvOY7QGIY7dOM0BLel62/a8ELyVMAR+TUsiu2YmYguLZkzhCjkcTrosqzq4aoazOzYSe3ec50r18YwIDAQABAoGACwaCWCLKV6n4CDx6kpLV3dEUlunuXZCsEYncGrK0dWdy7fySWV0KpSSB/PfjOgL0Y3WeEPkJ/4b5HXx00fINMAPmEJYo4YUCTHBcQgEveb34v4fPxWUn0fJzFoY2XUP+JutX9Sc8aX3I94Sp5aYwSKpLi/QiiOh+/lhl9imvjzECQQD/FSvsY0X6B/f87QEYiYoOTxxj6nuRjbybut6WFNyTQP7cRXE0Tek2p0CC/4WfGHo6NC9KoIQduVTCnOFGMrl5AkEA18K/ARHw4IuMBIQpplCoFJrY+bc+eYTmNn0DrKF9XdnhFG48iwQWqLMIKmaICVwUPVL6hYyhl4EJtwe7hJDJuwJBANtFR8ycSbr0vqgc06RUFujV+IGrPy2PuWHk8RHyPOoYJP0UdIuRrbfdbgctv59TWz5NPZnZAbjLZ6EjWkMNt4ECQQCcsS8b7NadjFq8cOr6gPsAM9C90emKQQ0bp0DC32j3fqMqvkAzyV1XWOXmPR4whfGg86FC2fYE3E6c4P268Ze/AkATYt7SIdaAtD1PSELVMbYqyy3giYw5OLWZkIlGANo7RNIBgFi4Suhmbh2BJpufl+zrCUaDMe1MUiCGLe9c750x",
	"MIICWwIBAAKBgQD+bD+Vf1L1j+QWaWeg0aGcnYe3sMjD42kMeAefNWeIebEkZ6roYRZnSbh9Sj7Q0QUljQQ/sVpBsXOhbIgRKQ6yMKSuWhD3z+aRUfqp290byA+8jpy8kEYzC8FPrC2y5+alGrFvBbix7/AMNpsvQ7Dku0OOL9FjmwyIW3nl7O4SBQIDAQABAoGAEfHzqClDYjOkfFox53txwTixPmkXOA3dtnXu37FmHI+syWsQeHSEnoNqIlguxw6/JK9mGdH6EkEgbUXY8RDqys24DU2T/ZV89FuFEwIoZ6XEg0JNx8kPI+l7npyEbVqI/GiguweVQvBl19sErmIAO6jE0PtzOi2eGzA0NvCybiECQQD/GTe/cMjnLFTXSF8902A6mdyjdKZ+Cck7gKgr2HXIoq/xcMD/6G4eZ/Ajyg3PF7TDziAVstuKLk9ZRcJ6yDE1AkEA/1JrWrol6Sscou9K2owADLe/zr5p7WlbWiZ0J7+bDQa1hZDHs8cZHFYPAt11YC8YfCA9YSJYgIBAW22k2WLHkQJAQPn2Zi/fLGrxTUik4cWWbDbGqWfMBKyPcjWKIGjpT2qI8DGtJ0HX0qzc0PDlZYt/QqSdLYm6O88h7PZE3CtjxQJAFaYybiX8kvHR4srxiOh4FJv8CpbAup3FXjaGgNxRVGBuQd4N4OOP8IQnj7Ghgz9bDyNYsQTNhk/ZpSb95GTo0QJAPiEJYHiajIchNBxt+ib0EFRQdESDugTuawZ53lAWOxMiNiN17aubNJjsfLbDGCT0n0WDtf9zX+nGA05jcBp2UA==",
	"MIICXgIBAAKBgQDmSVQcLZMZsJfm1//cfzzZbe8azj9aHFLnCCtjNNowZEjzrVkBfVyRetSH3z18A6gq26+wVkC6lhJEtcJ/bBOd9rHXUZ+IRPFCWO1LZ5SnCqhWJg0ZdF9ZEsk5inLSSDyeb89JUkXrBT726SIexYnrySMg3ftMzd5A/qkApsXr+QIDAQABAoGALoLL8p7/0VX58B1bJ3kpXI7YFpVmdTg4REJBpRlVIiX3GARAcE0WB6oDx+d+PxBsBC/3tYlOLIFH8km1nU/CTCiTA4Rdi+jrkjUZ2Jr/uxYLYF9xBjIxMhd7I9rlkNr6HUTb3BcMyYvJFLvY8RdFIZewXuJH02ohRXVKXmuL3AsCQQD8Rr2f046F81Mr9ZWAzKrhHoJcjT0l09M9YV+vh78s9cV7swq1EQIgZxf5Z5FaDWc5zLyl+22bBIHSlxt5AU5fAkEA6a9/Awj/wvd9zud9VWlrDh1FWR+rCt/1LtJhpNCaMubWMDpIA+qj+QhAKY2lIwhhia5cMv71hy5Zk1T7s8+0pwJBANueReQGizOncYd6Yy1ef4A9TCWAO3Rb5LCxvVgU5+QfDU2zvyWD6gMFXMSdWdc4hd22k6A3suJZ2R7Yt2zvKycCQQC4NTQM43IhcVCF4erlgkT2ilJZL+J3nxU6BHMeJaX3zAk5WSfdloANVdimKNbs57Vjf8OEG4DWP84ymoITOv7vAkEA3A76AhogNROIelTg+HunXZS41Zqm82yAW3n+1yR3PlOhQtMG8KAuw1F38TvaPz2e3LKfUiNrQv3klyhrR7SF7w==",
	"MIICXQIBAAKBgQC57iCKPNO7SyYdrjMEjPC2hiURDzgxGLd3pvWpWSHelmVgX09dT5VR+jyXJ0NdGaY0G2nMfnS9x5BNFASMH/wBeAt+9yelMBYojUAf2PrgZBPXV9ahsle9htWWLyG7SaZYhQO1mNxn5uBKs7ycHi6C2cwGmBQF0IU2/KlaVochLwIDAQABAoGAOVz9/hhZLLo5NsQFanx/UZjee75p1D/vbsN8nHRq7i0RduPA7SV+CK4/HlVXQ7SDoiTpBdXn95tH6nfoFUFS8qwu4CbXMpXEpiaQMXl1I8/0+7JtcXEaccPr5cuSBMcyWo03NLb2XolIcID9MO2HYCCsv6TkL8V2cZZUdJwZDOkCQQDM3myf7DRLwvYgRmC4f5lFt0X4c3NJfXWiEAEUR5a1qW0NtyRDOApW23rmTTgW2qBnJg20dF6OuePOmXDDj9WJAkEA6FWqQGZgIqvdAViTzIMWFMYAMiQzWMfpTGAE5V/NFmhglG3MKXXUb2kb4JUdiRSfJb2JZop+o3PWIs/xd7LK9wJBALwyp77Rkcj3NHq5rChQr1Cn6BMwm3urUOCrqxIiIYSIO7IZx6ooVPctcF0YGqqD9E5NWtGnBSZABdHIixpbi2ECQQC7Jh5BR/YSl6wr5GUR7VoBG8mWmlB+KHKGIiZvee8jKKr7hUJa915K7DkXfCZRgLn91aJzZgZCthF881IH4I7bAkAvck0BqvWIUvmo5j8lrLcTcRopDR59Vl+h+uElR5xJW5FA4Cxxu9fr0e13Ga4XYjoSzYewOKYaNojTHrJYtsxL",
	"MIICXAIBAAKBgQCcWSGsvx9rYdqQMTacdWpBuhDjx8l5N4CrVmhMNH+Qxq3SzFGRKh2qshVhERosw+rpPOtUSodGovM54eAJxuwEZ9xX+Z1ahVEAJI/WV0zVGMqc6Nkyw2BgOIIGIE6alFJi1WdcRo3eGNDoTEGoK6Z49IAwt+5wRwFwJ0Fcj0N6lQIDAQABAoGAOgqmwzQSjHE/y97ROMUoBK13/q+Y/lyZ8kF6J6wnnU38krCSKVNavxcsc6P/NRYoW5znehvO22y74cWWP9rum+FvBrSJxP1DyLCC1eCMZ4SlXmZgw+RgvDJqgAoZZTjovjG2nOBBOK4YDQEBnlcNdGIx1mDFaMl2qFMLcmmVaaMCQQDQS+jhsIPxGcAL06X0Fsb0FlnYbaKbvEfDrnuXYnuinNfd6UZjDQ3QZ3/v3OII3ZFkQDZHUjtvPQRZcNyDbO2/AkEAwCeSzh4ONvsfKLUikrdIc58zh+CFFCcMgb2CFEd0m4WqbGFmqe4OSsrnx2npEVteeoZFZ3lQbZqjwPAL1AJUqwJAZEQWHwW0DYviqQ7BdMS+EmLr7sWfn627MdO8xHtwni83rieLbUSsYKRhrlm6KKBXS1Wpix1nZL2PaWpti4oUywJACKG+doPjH5UoUSvR4cVZ+9eq+O+dCsq2RR2+Oir7kgDvJu85LWkEO1fiEZMwZRc1p0tg0sUgV8wajxA5d8yjAQJBAMHsc4i7QZhHj97n5E3vUbnxOHq1PV9Wto+nSK6Efnfd8CUKxDBfOEK8tXtKyOegZXd+F/o45vj4hCM7bO/Tk90=",
	"MIICWwIBAAKBgQDlncUTTxMiNlHTdTCasnLI0kYHvPDTxkVvk6XY4Fc6dwxo1h7jykrwLQnUdwuii8/+S7Re0gSBJrUmmS2jd2lRPvNwUBjuwMQ8FHowIrpCxpp9UYMoPwhkvRSKnhBb9JwrJWaAuJjPtEduPagI5+Y6SAZjBd1JK9env4XPbL61IwIDAQABAoGADHLsfjqsIGTj3ybm5DQ8P0Fl6kHRqBcDU7nPD5OWLHAg5vGDn45WWBrbrL5pjeiuSwINZ5NTtYbaN8YCm0QRnGuWpLphP33UGWYNmigPdfO/hgV6jb4YFIGgafzetSWemy8+oRNjtt2LpOeM041LgIgCPXhUPE0UMs/2A11WLZ0CQQD00Beg6CIxvikaaKmsYOUjk3suR2iVBn8Y4CMihtPcXiJIUcwCQ2T+Yyy9CgU0mb5CyIF+xIfrxzv3uQuIPRKFAkEA8BvnEwcFLueUzyCm/hFdTz+z+hmwm3p5jc2qvkm7RgXZ2crF7jLEZ3E1zff1pGelsAyHgqB8Fcu3+/OTajN9hwJAWiI3YN22oTvTJE7+kWHHW3bUNnDCF4QhzUXQici8PflGg/vhsb+gcmyPLzZ+PiSQwUPTMZooNO3QrV8q2MkrhQJAA0WOD39P/cSgDXZ3cAzSharri+PfuS6hC2KbCf69M4YO4t3VdppwfKxZPFY9naDf7BcvnYMMTcu51RALmS3cbwJABPmjylq3QWh/hpbJo0/aStyINJemAlAiyE4tBcYzhaDUzqZDeKvViRzL09mzHRwJHxCAAa/iqaV7yIZzCr8IWA==",
	"MIICXAIBAAKBgQCz4S/RFVFbamnQIHSyBZFqsoz5vUu+AGn7O9N9qlxvOBkijpOtmvQgXZ75MoHJKbCl9koV/ll1p9DJfivhTVThQdmFo0cr+Az/6UL9RalZuNd/8hWOZkItHg0ysTBZ+qsTkZT7B0yGf6LK617ll77qMz7diTFjA0KB7MeDGAuoKQIDAQABAoGAFlsJR1H/732VMwGlny5j+T/Bl5Q4IqAIi+nOihKvND9jmFDh97SHXLJl/JCTYr3kr2uhn4Qh+CZoI3Kj33dt8e9z2dO/sbRCOw6pEwlG0PtXDS33CV4DiiRVCdaAPPDm4s3wlHghE6tmt6Uy2X2W/rpkz3+HXCSFh1D+36BR3kUCQQDHtIANNYG62GNWFffq5HTkBDnawRVwCR63W5+lYDOu08R1Gs09ixXzf8po5fYfjxTPWmwBuPZugXKTdv9/oyRLAkEA5pYBSvcvuaPlfyaOSRQXFWHTTpvvQ5Np3g9zkUOMQHf9dfKDQZ0czU+hr9+o1OwncUvSOsjtcvoUZId3VNlU2wJALm7zjx6vyUfi4PM+r6jq3NF2ujxGxcP5Fl0BY6xYl/+5IBlZO0QJmJJP98/wSCo2hnfZwRTGh68letAiXAUMvQJBAKa9rFuoWcOVKByFJfjkZTjaD7JVgnRMQg8I/1n5DY+E9Sz4XD/zO+OfhN0oD+9AgdkkqfZGW6Z7/okfiIQ70GcCQHmEPJvYqb0f5DlAGLVJx53BznDDBxtVcQ9jQgJy8NaiufY0SikcdeZkRHpwOYN5He80FWmQb6s8dNyXIPvPrqA=",
	"MIICXAIBAAKBgQC/NEpJ8olmo9oPNK/U20HyOkrpzWxrwEsaLNg/yTaqNzKSaXfkqWR9wHGaZsU80KyT6aMm18aWT+K8FI4H9khjK23RoLbYdjFbW9JJgRt4fTR7gL7HNWRefxtCBuF+orhrT9E7IM4ycl2RL7VyeBoSdiEn8VNNlWrYn63i6qt+hQIDAQABAoGAPMInhzcQjXKs1N8nrqqb2pbGfmQ+O0FIPEGa2C4e9lkC836bUCi527H/B5L3wzsGVBxOsYWov9QT1zNq7MHIv1kHKakw+KTLeyhd3S9X8XogFijyee5+3LX+QSCwWkVaBOJ+Nld/Du75dABZ9v0e16I2C+MYV2NB+Yv/sIMGzrMCQQD5pdsUPFzoFozBoItvyTL2jpWqGkNP22v/PvWlrw9NH1WVUpIRFllb0H1PBdiXe5s3xLJvxyo1197KCOjs7kR/AkEAxBG/Sf+SG9lyn+j86UCCzcjfegKJbbvMnxvbGpajggUcCmVHNaX0+soiqXY1c6jGs9PGsOCZ2sQt9jRmi26q+wJBAOXdyXNAgWtSGBjRcpJjeAF+GGCf/gqxxycnGZiNMFGa4Hq1pLkHExBvUHJKt7wDnFAlVQeHI16gfgsZWR+P5JECQENGb6NdXO3PW8RAtl72cqtXbE66Bhuv35MMhM6Ht4zKYgezHo7q5bcTmncZB1grJhrX5IoWVtQ4kiizbCgVjfcCQBXXUi9bAq5nnGS38uKf3wbNdLud5iPkwE0uRY01ejWVrwTGZyclyIG1hYjDzvyaIsWaNcq6wS9hxOBLKnct5YI=",
	"MIICXAIBAAKBgQCxUTYjRiK/czll5iuDkxtBbWpmcg7qP/FWQXWyd3b8bdqW3pPuFE4sAHgA7cr7h8adAJJSmlzCMCdhp2SFFxyiHmvoxCM5EuSP6ziN5MXt+Cdg4moGop2RJMJU2mdnHQP3Tlqfs2KTMTv/xJLz4oqdcqoPse1E7k52yYUNry5uGwIDAQABAoGADUeuzU+DFLb1f+CQNmd9wsBbbVbHhTB1dmdVVaDFjub6AxNNHadJqi6oI4cBDSZAcCEgfwKZReCYt83zT6sedWny74fLjNIT54SyAYN7OX4AcAo+4TceTWZsvBLqzPUINxae4IlaMPUPXleFDasN3RgDs5Cy65pZuEM7WjcWErkCQQDa4n7UxbmXGYJBVY+p1w+cdnIfdd4XQ3pn6utUlSueAWY7pyFK+IF+xTghwkJ2dcCj3CL/pUVEogPZm9PhYiinAkEAz2JS5WG+IAwhby8CL6D7vr1KoAfZcN1E9lhnOogXGY6m5nl4czmQqr7JXOw0T65H7PYbVoNfGDFzN8SAfMjJbQJBANeFgUDcV7tyAJF4P/cJrXNwJTrZAg+B/7rm00T7hHEWC6XdEKkTO96pLnX/IxYlJ8OwdD2obCYCKSxRhTU9Q60CQE+T7zNN+mLZxMqhQzl7kJ50jHo0COAiSCAvdA0lw5dvAeRWoD22zSh35VTe3oPk4HyxQ3RDHO5vq0KvCI7ZjVECQHfdhQI3G6JI8K0zrJZJTwpGLir1v1IEqmLTpUYM7UARPABDNkTXVAoHwPRBpxNCNpnx8FYvuK043jq+40EBo58=",
	"MIICWwIBAAKBgQClD0+422VZqAxPInSUPwPUZloUQMZVV9Qy49Dgc7VWKhAb5Cy//R26Mpeq7Z1lFZP+pkZNFUgeaKP688l8OaDkpilfbgymEsIgrSsE0Kod3aexDVwzwMUeQIy+1o3oliCt1wC6fGHAYWnCYsFIQx8Dqo0fFbpiD2sh3cqocCAJGQIDAQABAoGAGLPdbQoyCq8lRHSgzjejauwfKsJ09vx22V+R+P19fpXl+klK+eK3n7sG9YGr7snCGo1886Kt5pXSMMe/zZ58TxkLBtpwJghQJNQ7YwapZWVJOVtYJjbxdaCjCQbYJ3lcVXKzONuXHP519cTnq9pel126xVzEJETPWUG/UEx1J98CQQDWMm6gI6/IBC1LdUuYsarcVmwRSHi16f/HSxSv6lBiLroLgiHUXbHt0eI9elrR/83rorAtS9CS0olo1bZALVtvAkEAxUXrcicoDc9GBQ0UhZ9C+9rdQR4bxOkEDGzmib0Zg5rpVzc/oJu9C75/pE1QwQSB00VOBSR/en3tdcFiBqu/9wJAcaWIdIb6uREeRy8Q0Q9TLFzeMb1V7o8dGsyHSV71D2Ljaz+8W0TrJtd5Rk0o6srioudKun3DSGNUbL8XV625GQJACZGxsRDbLYhPYjFXPIAUNLlSIDWArVWMP7oMmMPWd/7MsNFaQcUsL2SnNmYVs7cvQPtMpI03rc5r9VlTEvXD0wJAcvDNlvV15y/7eZR286TB/1zxc5dEZK18Gc5r++OldqqETWjAJe/CXvWbzP8e4O39wX0wtzOC5MFxky0ffmkWOA==",
	"MIICXAIBAAKBgQDVp5LmkPzDkpCHz+VAn7OZ0Wef55wu2tRdQlKpLwPYCAcNZRPhUNypUXAvIO5pyapFkBtFYx+Pc2loBZCgbyQWg5fDQvWA4/LG0d15tCIQWr7FNCZhQRfvUBFK1YAQP8uSwyZNgfKvn7NsIIpA4587owWDDSF7fyNsOOtk4QeOfQIDAQABAoGAIM0UzwQUYjwmp0siEZ1TF/rfs1t+DW14LAcqJKI8r1ZwKrzJZA6jifUgSYP/Rkt5MivRHAJ/Tmk0Fg3AqfjWK7zOLC6sraM+ZXSezbHV4WotafbiZ8DncnmsEvLENc0fPoUJiEVdqLfv/S0/zDO7z24vx9gEaoovtpEAwgoAprsCQQD05kV4wLsUY+8oHkQFjKqZfCNz7MPaqgfCbigp0JotNBJGCeJlONaHrqlVGQJIDCebS2z75+zUOpHMUFl6DpSnAkEA31a/UtQkmkQCCfE5QNS+2Ayf1cQtP/qivPyD9UBVvPkjSCyoAEtrxfU8ylLQuqQIPLhrO12Ls2n8QjVfBAfUOwJATXXcOXJ0eeGWDpFsIHk6qKtsJ0mXNT2ckLH5ACjb6zpSIVcVBcExkd777k+nuhQmHud/hDn6XbJc1UwA0St1dwJAdszhFsEr+zdD0mATcW35WllUyFQDMe4zlM3Jr7KaKNxprSG79/QmjvWFcaYdy7one40p1TlMb5JoEhvrv+weMwJBAKducYXgiA1/znDoupu/9sXN5msLdoRiJrLFZ19LEdKrQJPSUL2ZMIGXCGNhrTdju+ap/FiE6DFFdUfyQ6QczdY=",
	"MIICXQIBAAKBgQDaspyCANXGZPLUlT9KSAklm48isRQz7Di1hWJblWTvLF89pbl30aSzQkceJFnfRIHszC6HUfiyCGSpXpU1qzhi9TiH5et0CVmTZJe0ykeBD40qSXH1iOzu1wlorLBHAY8dKgWoBc6ziEfJZAgDiDpLax2xLvjYz6Zh9XlhCPoj1QIDAQABAoGABKVZlTQ6eIBQCCpqTVlv8aQD66XY6dt2tmkBwTP7KhuO+O79xxfyZmTiN/NW3/SlcyOnJtr5o6ILA0NJwD30n8ImSD8WI2cTEkgKOVoRh4VRhLX4UKfdRdzCaB9FtyAMxGv2NMsxUFfK1AWhAxqpUSloR+8YcCFoCecnuZdULTcCQQD5QVAyRxIJIFVN7exofkUdM5dYM+UboHOr9E4aCUC+VGuhIOUuiguJZxmMgEghGt26CiTLBeBGAsr37OgVQJgHAkEA4J2dbalINnpw9YowIg0yeW5gnHVA1VZc2N1Go8uPsufJ2ajbIAoN3MrKZUGpoHOoi9ueG7cL70YMu/kUigBWQwJBAMESu5lGfgz9s7Y6vy4t6UF2bhxPjn+46QDgrAL0+ea0o+5a+cvz+H3Fk//GepjSI8BxDREKizAQB8LGCvwzXc8CQQCEMP63zUrslP7p4xwUzkOIZ8eADRnM9HjMQN4UA/dcSUHoUZI0tvYVnVukYBKelbL6LJROp1nkxgs0jZDi7vPVAkAnB/Um5/I9GO/I+mBfiaQtVIxbkjWiQ2eoIcxVDuhSveHLBczyTRTTImRwWbnW2FWUunn7rrMeEsJnOHApSGMY",
	"MIICXAIBAAKBgQC4oFhX+U2lmZW/Dq5+p0dQNdya9YMKqYAuIjgkRzb7rHs4Y8MmhqTAwu/akzvVir1stXUx/NRmaNC818zo2jA74rZRUVw2YT9Uq9+S0OQGeY3oB4qoZNN1BfsFfgAJ+secU4wSa//c8dYpsnI0AxD5mXOjOZjHJIJOZki462gFgQIDAQABAoGAKC3pG/gq8EOc5a/1xKV17RxTrruIca0SsreKvUZsTlgqlsqLQVqjBzpFRa2uI1pmv/47i43o0YK1DqvuMayuOzLXLxjahZKcXdrrswXHEYy3GsGTTIV3MA9ekL20AueusO5Tql3BEBd0sNYkR54wjDvpIdvt8XdFG2rBuZB0ubkCQQDAf0kyXGJAZDCRYsx9UFilH4LTT9zxyPnGVUxCBT4gVESf45tSm6qqRl++48kDPRjK3jpLAsrz5qbTLx6VMioNAkEA9YhZ/tv1YsHqAX4BV//ssRGQEDtLqh085GaIE1/GwJWGVVn2CYH1efU24QD3AynIw8ojw4U48/TbzNcGDjFwRQJAB2eeEDLfkKyJ9b3AMf3aOxfYN3q1/BMIEKoNUejTt/il3ySpP+c/DGfCnRw0CkzaXEtqIKKN3g38UtlYKtMQLQJBAJG69j9wajrNgYiVM1L50ZBfLjSUHRrA881Uldt580uG9A5gsMl/2yUhyArQOcwk1sZuib+YqO8THAp+bVerPEkCQBhNF19krTmaS3wFkxbVIr+OaPhW7yvUF8pM8RCtV3sPEfMps1RNUmaza+tMmD6PSM+1hZI59//Ojd9xCQ07mFM=",
	"MIICXAIBAAKBgQDK9l64KWLh6v7JVW3jsEEB3jN163ray6AZn8JeAQWLoT/ZcvN/Z3MRJcrxxrBtyWnntctLi6I7jswMK8exr4wscfXVaVzNo8VOssjU1S/4f1D7tew87HdTkPBkLxS+BgDGM/QTRS7FcpqDhZLeFC8K2DxiPo33PTKQyAH0n78zUQIDAQABAoGAUPjNfSd1va/lCim895N/u+EMIsVZdCS8sLxd7Ob3cWdZc8U6g9+ftn2fY6njBUnPqJOMkY0Zoi0sFsb4mljw0Kw5rYyxgQiKF0N8tdcgkeEZ5gIhyHspR2P9T90LlENsoPJPXsXdi2O9VyTiwqoxoX6xPYJzlDl+MuPZ1hEcM0kCQQDVgp1kYFqf1sAP8BkYqQ7L7qKPP94MrIZIZaXFyJ9jGKfEJ2VOooX2xTDNWRyCzOLvo542h7qlhtNjxaYWbxBnAkEA81pj/28bSTkH3+KR/Qv8EnpsdX6KurmkcRcSg5USGAUd4RSORElhrndRt/3WqxeW4OnLpuKhHiOAbmRGcInrhwJASpeHRTokbxMnpmnLWsI1WSnVwRYfDW54u3JHqAGfLY+/jNf2nLJK+xuJITSwsUHDRtVywLpKium/kGvMyqmioQJBAOB+YIWBz+AqtnL5JsgTyESbn3Z8eCptm5+gMzojyP9TqQ680cl5EJ3MAR0FFIXdSxjNVUvtAck14wLzim/DK/0CQHeFfvhZBazztTFBlS9q8KWhQnTgDbvCDq3ZZeR3m33DmyUG374XqcOfaUxRrU4HYglWJDbFGV2o6M7swbxhQXg=",
	"MIICXQIBAAKBgQCswP+6CbF6UeRzuvExNX9OurSoxWt4pwTlzUN++vnGfDxEYKWc+QmPd9t/i8bv4dTZk64v3tDXyFGANWV2q76l2hp8KweiNnMEvXMK8M8G+Vspa3tGhadpUL4reeMDCoSbhe0UuztHWZ46ZAK7BE4e7OYYAVXiLE/kvcLeKOxreQIDAQABAoGAHehj3X9kHHslA+wvaYeLfMPSFw3mp0KzFF3O+6LTr0s+28+nnF95Cj+D3rcCP/Fm+iwZEeyPV2w0v+9+m2bsYF0vSTMvexRAtYQijiEadVz9WacQHsJqSaPmLGVQWw8DXDhtzqowfCa/KwzJv4mKvLunSlO2UYjN9KfvCZeGrSkCQQDCGsnW4fIFj7kYBCSZJzvg4Jj6Fz4H/xH7gCKsPxSOngXUc2hB0+8jr/WaPx81AiKiVNgSZy+fznHxlYCJLwGXAkEA49dM1GFLNHUl5t1FqAL7hz9BDpHinjcHRnH3wdhzKzS3F16HPs3c/SHlwPJOhl3wgStbCA2Upmtk2yp9BNx9bwJAdOH8uNDGFGM/ah7UiwT9IaUdeTuVtur5wSCfwGkbz+WITS5RkZI1ZqAGnSN1f04R3P6KPkq0et6t7nPAOtt7cQJBAKTmBi0P3aYxwyS7sNZQkkrodOVeoG1x1kod4frh9TioBntbZvcFd5OdHPPwavTEuHRENLY3Xga0Y2Jb9e+2xPECQQC9uOKZMX2M/LBWnue/I3O+5tLzSPNelfDrBn57O5gPSd+FNelvCDtzSaqMuQIH2zQay2wJqefSPLIpYjdoArqR",
	"MIICXQIBAAKBgQC9jZMm7hJNZVVALv7x2YKgxsPDxPQB6XLahTkMEVxaAfHQPXuCxJtrVm5sCTYLyINYNXWZxhl4BP2hrrKc4B35xAZtjnIEJIqpQtdVfG+PMNQYWfZ2wcZ7ND894ZHKYPLBsecEvPxtcPig+ail+EKpWIUy+fCVAKKdNc4jvrTuWQIDAQABAoGAMQ7OmmE8QGatAS8IkYxjR/wZV3YGVuZV8ONQ5+QoXC0rqeL3r9j1hnq4mmJp5/PNtosjdBh2p/7Wq708gehpKTSdJyz2eWXarX8YSqbENob3WuFygfA/C8tjU8cLKOmRk1guk/fyo1Ns4k6mr62rBhv3qyeb1miVIgM76cr0LY8CQQDnl9RHD53JgZZ9ZvOUVKlViRhehWomFRBq+MigjjAQiybzfl7Y9XV0M0T04ukhJi2cCzD1l+l3Dm4WcjcxyN7HAkEA0YeLCW7Q4IgsfFELr97eWkmLt1nn5e2fXRv/uBlMtb8ysj63pbL098OyGd9ePz/8RqQtByGSopo4R0YNyYsp3wJARGkOFJuhUWfNK2fg5d0IVDL2Ft20GGG6gs7QfNTjj897Bww6Oj5vno6SfQAWO2uKp4CKytE/7qI9lLXSZgte+wJBAIBr+yPE7/EuhVWMtwUMLGxaN3AhgqjCg7Klvo4vs3yRu5jUJ+s/TDWvlDGXXkSWCyGg7pg4U4+lxmio3zpwOTECQQDMbwLEUhSJibqbrB5rnlgMX7YLyTT3P9XTY+1bTmm9zJMxQpHMdhgPhmrPJuM2Au+KY+x2UMVtd3ioNGaa40Lf",
	"MIICXQIBAAKBgQDAhQOovIecfDswJtpeqkGMeFeIuVIf3ZnYtGGDE0oWF39ck+3/tTektnPz9CAbF382IbMMF8S60GFaVqTrtsCB1ITrcf1WjeVg0/dKMY2O7vE9EsFDNPsd8ucjHcJegrypze8Aj8iA53edQ0lhR48XtqhLJ0HC4U1UykYB7m5jqQIDAQABAoGALv/qIkYQd2AO1RUPJ6A6C3CPsiXIClZ/yhtTWPwbEKSg57mHl28my/Ps/+gf9G06lb0JaJDe6tqXgcX4UkFV4o/LNSMYjW8Cz9PrND5cHI+C3CX2X9Xb/xyQaF0AKSowH+bhprrv8/8GLLsLWSHtcDXVHDuidZNpmfVpJXo9mtcCQQDW+hv2ybXCwDfqnywIcjEJZyz1YR+RinoD7LnL+vWIQR37AYB688ttyfZmEha/1+HIsHC3K9G0NsfqnkWPM9bfAkEA5UHVUxfoIXjQIQiPjA5qaDVq8cYY/o660j2vyYCW1prXe3Gz4a6vTKqLK/gcPolHbgXmkf7l48uCj6aqY6S+dwJAILKJ7k9fxe9WkekD2YUE0FlRDUFoe8qEJHStDclt7vt4g+UGlazfFCPTxlKaAzPis5OikTmo+7AZWCYajl1kIQJBALnRPVXHN8gBgzhzFt5fRNHIEjF67gFNsJD9nMCHMDsrb+JHS5RtoPpT9M+jn0j0veeocrT81FppNh626L4w5osCQQCbxGk1IHaKh7oR9dP4ixoTPnMATn3bnbOLo5UAIV2svn/1eFqRZie0x9Zd6UXpeXvEYI/ZXEUaCFUmcyXbAcdI",
	"MIICXAIBAAKBgQDCbMOeHvHp7jv2A0In0DSjCT7rObP0KeRZ9r/Bindv7DZbnDA+yn2jSB0m/6iwU9UvxXeJa1ehySBXT17fJKWA8ViW15EbUaltl+bb13Dk3aDEXYRQltxhcRntPWzEuhKqI3NYHEKb1EX+ZF9WLl9JyxuxGXXgbzb9Jdacscr4KQIDAQABAoGAIvAqowKKlHAkRExHmiH3I4kozlp7NRhGGciWovAAEJPRHNtPbCk1NJ9j5bsxlCYsfD4vAfnRMJiVADuaH91VBCugJftToo1Eaq5oE9S1sj4vppdRciOSXaB6Ghu8R01idHyHRfwKYTkLS8VFsYYYHvuM4quQwne6Nxi4WB2vl9UCQQDmyJA+t2XL9qcEp+CYOmMKSqj91il4t8OciJe/ChMqGJLSiKO/DAYMKfppC0IqrmLLhf80+ATSHWp5RBjkLAnHAkEA16svJgVLgvtbi20EDh5hON+fMHdSSaDczoJHbuZxRVYbmUODDqABVBumaYEv/rL8yUmyUUcDk/SUdT3JVxJujwJAEOyIV3EPkAOIf/jnqYIunSSYe/TmmamwOJxztFjCywV+Tt4iU/JHx0CU0ns24PZk3FP5QSMnB1mM41OxF5p7JQJAWwsG4lQF5otZv+gLeDJW9H1iZEFa2X4w+HSC10wssQqCqBaZ8siVBv6NJ6jDrA+/KvITdsA1wHXVXhDxN/Kt/QJBAKRXmX1XRva/GrvJ44XXvtl2ol6TEfZm1EE4K7EhJYjcJGVCzsrefuQa6v3Z444O3g1zfjLmM1mB0ctzDo8ri0g=",
	"MIICXAIBAAKBgQCnjYWpOQz5a0lVrtFW84t3PnSvHvh5vNBA6KIQXXscrk0X4FMPiGyV8EX94vVblrchensp+fsL0xaT4wYqV7BobWKY4r1PYH5b/ZyiyHrbp6EqgzMxFkbxDz3xrx6aI99XuAFFGb7lxNasvKNE7uVfM06AyWYK2/lKIb00jptf6QIDAQABAoGANjxrTbG372y5GlEyVjETrg+7eYxO5ikmSDyFaUK5PTl2nwnwGRESBR73qQ00WudYdC/PenD+wH8dydUtA7vK0BxzH81KRvx1vE28ciaCeO0fP3pEvUxfft3emG1D3Hw6lE2GyGFim9pIUmP13zH3rNOJ77teOebzEFT3FwVAOtkCQQDcL4LWk597vUNhRAXcygul96XtwjMVAanK3Bpf07IllT9T55UFYGkJ+eEjylWBLTknIKOsOX/yOnO1yOUCnwqPAkEAws5kT/UFa0xYjPy7fPnT5anZOyZS39WEssg+B645i16tD7YVcc7SG9vk6UlFD8BSIKkbGd41jrh/rh2Ikt+KBwJAVuVJNXW9ExB2bwRxa9kxD6bUjSh/EGM/pxeGMRtSyxJDk9FpNl3+FjnPaFiJthkq3Q48idOHcwkucSd/ebFacQJAOQtlFoDieFwf5hEv+dXSdgM5qHd9dyw4Mn4uo+Mh2Kz9socYWn48yommy6V4ArfHlObQF9AZENT4Fo1xa8jnywJBALoKFpH3VqKQkoDJDcvyWIaIhI351ZQoMsqAMqUHlbmcCMHDyh/hp/4+Imja+yqWOFUSSVQhWKCf6L1b9Slf2mw=",
	"MIICXAIBAAKBgQDeygMXZA3qEcoR1et6SJsGqyM0531WxbpswTlM+Ct8Kdm0dxiUKffuR5pQvukocz1+EpA/8dGGtZcmUppO0rabqtMW84Jm5CoKA3fNEqnzrcZpVwzEWf6HSE15Px3zpMFZ2XQBdI43x4mnYCzWTf0n0VkRvEiseW7Z6MkfUbMDMQIDAQABAoGAZXykl90uMXhVEnbeQ+AbLph6+ziQchy0ZaJHlfZe6Lqvv3OZMLVFibf4ZdvxnkmQs4OFTnu7tJ+38O8j99Ao+jrl+SSYq1P3aJH+5/9Z3OOxPHVs0Gnz7et0FIiMjZ5LKJE23WCs/zwD31TzoEeg36gEmvOiUr1F0wlsbXvY6jkCQQDrPyA7ggrxTQuEw6n63mIvN33nguIjqlid5NLTcZQAGjmRuDIkA8i4uPaUdPSF/aGoAiqd/f4Ag2uFUz+TWcKHAkEA8nGLBzgu+cBU5wPnA4rF6LMJW2S4fxxtpW9sq7Pd5So7QREtl8MU203KDQSMtLHBHbE5ZxDh5FN6d/oCCpyihwJASeBAGhADqbWdSWs85TiTMurFUj/rDnI/dA5ZGufPJ50UuStUK7U4grIrVYHJDI8TBjTv9z+9VaHv0SXMkFSe3wJANWGmuPo37anZh9wmG3OMzAXPw53Tubkqs0hrZwr9ip3X2iXMIiREDV19ZYxg5tBUsxL4jqb69ekjiBM2K9v9NQJBAL6vawMOuJIATdw0X277uefRR7RHbtnoemuUCdrNgzoLKdgHjX0Iphh9S4ju1YTxIsQ1XPqSQGmAVeaAkZclcWU=",
	"MIICWwIBAAKBgQDMXciAqP8P+B9RE9I3FP0Ayrq5Cei2tALlgqKJdbCRKYknIB/SJ8uzOEdvt2G0NQ4yz/vJIIEe+ELFwwouofhNbiMLw4QsncNZ4641Sz+u6Y9AN+3zLQDT1l/ZCHJIgPSob5HBeIQkcEdOaCgqYtQ7sSTNcBo2RWQpMI0ewB5RcQIDAQABAoGACn83eqKziMUMcfEPSoFk38yJ7x7Hxp9tldvlSbz//VGUpN85vMtxSaeDXwUC5+tHUZ7TM1wP2PphdTnBmFTJ2LP3+qOyVPQ+qb8oH9xZvT9OSumdWm+pFqaIase5y1QiQImTE7qYZqlZDb01e9qzf9+1XFylVSf3ET8saqxGk60CQQDYpH08YCw7N54sP5unfwsJEnKcRJrzS4FZYYCLNog98t4YAR8+vrSxlZwaCs9yt/RdtMcbo49RdA3p14nuXZ/HAkEA8X5bwEWNDI/uj+k09XIQt2joM8WhpKfePINZSNJTgBOkPSjFkXpDo8N8UepZ56B0prW6GMWrCXVUjdd/BC91BwJAVacbGJ7RfgwsTkRLzzpMa6bOh3gcZyqoFmWVQ/Uogo2eP5FaAB24JSoIkMdLY4jVZaMOwZ+2Dzc6NQURtJtxiwJAVZK4Anbi11u9ZmN176+eus9C0O2sLMOLXZgRsFtPWWgcX8utzrIre8FOsVxAxXI3Q8fLjPGmfPCFqMl+6cXDSwJAVcRJzAmRwW84sHSFQaSlv2mWLGC4VRQXmeW5K6T0qqPB6k/r016Gy+zRAOP9cBfCpxibkxbNVfkQ+B1LIXLBog==",
	"MIICWwIBAAKBgQC//iuzuDjRLL2xrgzPQv88am8NAGvUay0pawSxuMTcEWejni/MvGD954mxUbDiFxv1pGY0r6zCwmT0+W4doaGtHBdPHUH1MPwzgZ79EKCLGekAKuB8uEMUvY6Xt9GfngnSLBqZTfFlm5403BQoeXzkJJ4X/3Nz1J08GBBUDm7RkQIDAQABAoGAJeCdu5epMe9bP04gvdUwaLlwzkZaf65jWwv/gZZ71BTk9v0y3ff+RKlk22RL+tbnT7eO6G8OLOBQLZp2FId6T0aemsEAHLfCurce4xVgRfisWPRxWB24lIl4SLZJ6wlqgiQDindahH0jOS5SS6OrndpLlDPKn4XV4N9X39D74LcCQQDrCjYBDwXyXnqSkH29ojakH9IQLN7l3tPHu/EXKYLVJBdhirANdSSXelfsV4abQhgVK1I/ig7Lr6H8ILzoYz2/AkEA0R06ORloj00E9Smto+1xnb7F1+Q+TAbux9n+MzstlALz7sWtdX1L7DfGc/q5kajDm41flfq7o7bP6Q5EUcdkrwJAT1zeSVM6TdFrD+wsGQkZ7Cc2dfHAvduUpP+n84s3uyJ5ppz+vzyLw34zDAGt2OTjXtqG5h+GyW4fgxPG1a0U3wJAcSUjT6nTzVWbDRvT/BKJmxSR79Jrcq99m1z0Ebw/WQqP+e2zgRKedd1n33EV3x41WIER6xCTXm2X6T3y8Vy1uQJAIlLotlREYm4tQQx5OF35ws3XgU1uhHRsdKbVQ91ktWEERudxu89js1ur7roL02vZ9jAFeoFyqgxnS5illLAg4w==",
	"MIICXAIBAAKBgQDDKP89ya3n4+QcnH6zTCsrgoEsZbCVzapa715ksMEa6SpBL99bCplvSkS/vKCoa4cXtQKivukUDmMC51hpdxbJ9RaeeVMuVJPvx9OgOJYfPi033k71CaTSe2fHNzau0tayIhZF27A1OUtCMvOHmTuWJeQExmsO5aZ8nBCpvcESuQIDAQABAoGACX8UNHh82tzO+8ltrOHW8+4MxRFJr3BrirM9H58uNlYENVnT/4UbhDvT7pSKKMfasf+f2jV59/zfOoPxXGhsFl/d4C9XmdffntjPQ7MUz3+jtHMLyjQoc3MUe8RRablWjc3iBv9U7AfNTgZrRvWlTVUJNI4hv6yxfcSAHU1UHQUCQQDM6iKDJUL/a9y4Jrxc7XF1Q6RK1uwpB5MaKAI50QDxSzQSbKRuz+Z2CZw9tv2BPJCdgkGUCC5YruxGO4NAUhEnAkEA89BSwzipTscLFFKJ69VtIGWYfi0yi3gcf1ujNaf72VWdp6N1fEuwFE7oXkseh7gjxQcA0loP9U/9q/pqC/hpHwJAUDZeqCOP5FgeoF9ZYK75uMNvrnQPIch7RsPeiy9LRSkBCy1H+LCdMBt285mMBmjk2yM/9Gh3a/OdPajSKf12BQJBANoCmE6Z1sJrNpv4Zf0rvUVvsth4P674OrsizKCI0aj3Zl5kygPXhd3S5PKTxvviipF9/p0ZDRX0bcaexr5nZE8CQA3CVRFlF7Ejzy2LkS95s3P2oJTctQOT1kLD/U7EXbaa9v+KNstIYdw4RKD076xoLO73laOSKVMT96fIbPtn0Ew=",
	"MIICXQIBAAKBgQDPk+rstkHnkzMW9ri+S7qZzA4JOUEgSlJ/SB7Wbrx3qlD1/4metFziq9D18OEac14EZpwkD2iXqPAWVweqt7GzM7Yj9H93QIdcnvdI09gPLLoJ+ISbL3+uWd4rBjMkvC6XF2vptL7hdZ5d8eFzIyS5SOG4Ss2s5tD7IGmEDEIF+QIDAQABAoGAHqE2hKheMDQl0UkluJrHFaOpHI5QwFmHM9XqCv07HTNKEAqdfYgivqXYxzm8laEZae/UMXP+nIZmqv07meLSOxl8bE7A+1fxpA8e1UXvEKELgASa7H/futkbn0ZNDJFgmDiDnrKQeT+wYGJo/IaI50Z5/tgVt+KRFmLS+ja8OnMCQQD3xQLWadz5XKC5oljO/nXEKEuHujYWNyu6T4CTvdpiBMBf4ZbD0g2kI5eY+RQUKYoQnLLiJzda8M5G6skihcrvAkEA1nkfcfDbSFhpaiH7NatML5xe8Go36nzJfmowrT6Wx5GpDKciKT2FEn39PkDo1TUVlagVx54pMV4lCui8v0ndlwJBAJZ31plQARqO3izeIwDSF8Lglb3/oAktyCiFT5hpm84bBJk17tFNJ2ufEdmcqkz0TRx5jUk6d6uKwjrfKvcEOZECQQDSaXJYLpxzlYmV/lCejrfn3dmmtA63lkV4KGYpEUaL9HONXks9eoWbZs+Uy8mhorrSYF09wgVX0a01zq+eW7FxAkAoHMXwUD3/aj6ZXWDtM3u8zq7Ms6htfk9gOC4RdFymKmGOzhQLjdx3d1RKoL4PwTyN6Gv2yCt+HxapdT1mAj+h",
	"MIICWwIBAAKBgQDJivvDox4pkB2FfqyOqVSqLfzyGaLHK6pQVNcTnO4VdsxLxEttsX/1alwS8gmnPiuKf2aPHyF+7mSrU68/zCGwbVlVKJGpyGxFjaWQiOZFJtcmp6lOoZILsrunOQ9kz3skNx1JnFPSr7ixdgdpFSCS/HOL8oeAekM1/GcKvqs/EQIDAQABAoGACOUIXXGlKCJtxcbPE3C9BXxdbcsx2DvAxXt+Y9Aziwug0os0OlVwwez9aUdN+RfmULN0sZunHR9PnrwPv5oLtoCF7ZNMWQU4X0xQ6EYRpbk04QT4dyytsAva4uAd8kmkUXBdO0/AjmQGRO362cGodJlNfI6C4Q/r7uykfODvLr0CQQDZUGYpOS5A9t6Tk3/Ssra9e7PgE+PTK6vPAF0AO5p3ENNOkCTHyIYzl3JgxWGezUWslPsBkFb4ziZPZSSX5AyPAkEA7WvZcKUiJJZ9Eqh61k7V8MDj4QgVaTdAr6KAY8U1oFH3++9FX7F+LQ/I12EmIU7D6DeAY98nmwl59GX8ryMKXwJAWmvWpk5xjXxq7lLQO9Y6rSr8lD8Sa7pfGZmYGNG0Gti4Y5cchrhMBsl8QQG/9biJxh6TNnpdhdcZH64BBOZRxwJAeuHXKPZPNaCuG3oYGdOz52fuigolCtAOKtlwmjL4DoJeV4b/4Qd8xtXknZUqpxKdUxNm4EoftZ6yAEzI+9ynAQJAMNUVblOmLi8OwK8Fhl1kqHPGXzrwJLW4eJAnMfVLNtx40eTuU/lYf0z6WA6m78e2I9biwBrfAB9cwpyRN8MlSg==",
}
