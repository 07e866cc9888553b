"""Groups of different strings with the same hash: two of one byte characters, two of wider ones."""
GROUPS = [
    [')\xf2\x0e\x0e[\xa8', 'bqogx', '\u4f7b\u432ezg\U000ad6c5', '\u720ai\U000aac21l\U000465d3'],
    ['\x1d\x1b\xc5\xe6\xb3q\xfd', 'zhkfgs', '\u4977\U0006fb0ag\u8a82\U000ec3c4', 'r\u3726l\U00068505'],
    ['4\x8c.\x06:', '\xe9\x04/\xf9\xe8\xa2', '\ub6a2a\u25eb\U000b7695', 'u\ud7d1\U000e1d17\u5a89\u9814'],
    ['lpljq', 'ukwdp', 't\U000ae166\U00045f0d\U000b2b23\U0010c041', '\U000201e3\u3ae8\U0006179a'],
    ['cgswmyy', 'yfjfn', 'x\u91e7\U0006f006', 'qe\u54a9p\U00104cde'],
    ['\x05\x0b\xa25\x80\xa4\x02', 'xkazcso', '\U000f65cd\U000fa38e\U00076604', '\U000ffd5agv\U0008d8df'],
    ['D\xaf\xd7\x01T', 'jemlpor', 'l\u91c1\U000d24ec', 'nai\u3756\U0003e7af'],
    ['ngewin', '\xe23Ld\xd4', 'r\ub73b\U00070622', '\U000a409db\U000797c2\U000279f5'],
    ['\x11t\x1b\xf75\xea', '+\xb4\x19\xe9\xbe', '\u66bc\uc60e\U0009978f\U000b572d', '\U001006cai\U000804ec'],
    ['\x8b\xce\xfdc\x95\x8d', '\xd2\xc4yJ\xd2\x12}', '\U0007a0a2\ua870\ub0ff\U000fcfdc', '\U00017263k\U0007e1aa'],
    ['fzthj', '\xea\xe1e\xb59', '\ubab4\U00061003\U00040aac\U00050a97\U000917e2', 'ty\uaed8r\U000bcd6b'],
    ['d+\x98)5\x0e', 'mgsyjm', 'n\u85d5\U0001b78b', 'q\u07db\U0004b56f\U000767f4'],
    ['excajar', 'hqltvt', 'df\U00077ead\u9664\U000c664f', '\U000cf3eey\U00040b27'],
    ['sklbg', 'z\x16\xdf\xf5\x8a\x84\xff', '\u5426\u744bm\U0005960e\U00086557', '\U00073842r\U00087075\U0002b179'],
    ['kaqcay', '\xf2^\r\xb8\xd3\x14\xd9', '\U0009ec37\u5fa4\U0005aa0c', 'f\uab78\U0007f7d1'],
    ['qzsdo', 'rsplsx', '\U00054a3e\U000feec8\U00050a0cc\U0001041c', 'j\u0cc8\U0008387dz\U0007f66e'],
    ['nftvk', 'smtola', '\U000ba83e\U00014be2t\U0008c76c', '\ub5cbh\U0005d080\U000f0189'],
    ['aelgxtj', '\xc8d\xca\x1e\x02\x83\x9a', 'zy\U00079670\U000266dd', 'j\u0858\U000719f7'],
    ['laqej', 'uzvai', '\u60ac\U00018510\U0002dd6d', '\U0006d6ba\U000e98ce\u2cae\u4f2c\U000d87c5'],
    ['r\xd9\xf9e\xef', '\xd1\xb2y@\xd8\x91', 'h\u0771\U000ee2b9', '\U000f71a1v\U000c1c1d\U000158c3'],
    ['\x04\xa6U\x07\x16', '\xd1\xe5v\xc8\xf8', '\U000b4a56\U000c33fa\U0006e52a', 'h\U00090c08\u25e3\U00023e5c'],
    ['lrhdt', 'uigju', '\uad2c\U0010a882\U000f15ce', '\U0008a948\u9633\u4c03\U0010f25d'],
    ['djdjcc', 'wzwsrm', 'e\u70f7\U000f5f91\U0010f039\U000fe0c7', '\u0e48\U0008cd27\U00025a1er\U0006d8c0'],
    ['aenbl', 'jxedm', 'a\u5c7f\U00056c7c', '\u91dan\u57b0q\U0004092d'],
    ['kdvnvrp', 'u\xb7\xbbWC', '\u3890bzu\U000566ea', '\U000fa97c\U00015994\U000c69ff'],
    ['fmfyxr', 'wfvpmyf', 'lv\u1a41', 'fq\U0005f6e0\U000799ab'],
    ['29G9\x04\x7f', 'mmruzw', '\U0006ff5c\U000b8ba6jr\U0003a93d', 'uv\U0006d352'],
    ['N\x85\x9c\xfe\x12', '\xf9\x05oW\x1a\xe0', '\u5bace\U00040d2e\U0007c1d3', 'g\U0001df52dk\U0010a0fd'],
    ['lvhcaj', 'umoofj', 'q\U00065d3cd\U000e9d6d', '\U0003e6bb\u37a4\u15ea\u3799\U000daea5'],
    ['imlaxvd', 'stqvlfq', '\u430eo\U00054238', 'm\U00069f59j\U0006aa60'],
    ['cxnjwej', 'dacmgij', '\U000dbb1dw\U00105b61', 'rq\u9f91\U0002182a'],
    ['mkzezy', 'pufdr', '\U000b0227\U0007d57bf\U0010b76a', '\u3a33\U0009edd6\uaa28\U0010f141'],
    ['ckhfbdl', '\xf4\xb5\x93\xa2"', '\U000b406d\u62da\u9667\uc05d\U00034ccb', '\u9ee4\u1beb\U000b3e7f'],
    ['akypar', 'bejnfc', '\U0005dfb4ed\U000b3715', 'f\U000b5a41\U000430a6'],
    ['fzyghz', 'oeoay', '\u4fd7\U00042b12lf\U000374c2', 'x\u8118\U0001a54f\U0006e909'],
    ['\x1a\xcatb\xef\xa73', 'xmcywn', '\u300c\u2219\u0973\u9820', '\uc2d1g\U00039657'],
]
