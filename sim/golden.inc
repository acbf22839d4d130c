// Records encoded by the library at the pinned commit (sphgeom as first imported here).
static char const * const GOLDEN[] = {
    "69490000000000000070235ecce1ffb4a1bf66f70d1b7909c33f4ef7ed91ef9fef3f4b53914f95aebebff445264bef11a2bfc2161f62cfbfef3fe0b62576c29bc93fdbfea4c1c13cc3bfbe1ea54963fbee3f490000000000000070c791b45b394aed3fb56cca1b3c8cd33fdf5ff6be1ecdd03fd3fade1ce24fc6bf2167c57c21fcdf3f9e0301826c26eb3f03d42f5f8a38e03ffbfc113869b1e1bfaacde6788929e53f",
    "69ab00000000000000692900000000000000638eae1f1ede6e9dbd6e7e1770c990993d000000000000f03f853d842bf70ae03f87d8f460ec28e73f710000000000000065f9e5471aaba3e6bfb77aac0621aedbbf30501c54d7e2e1bf737fe17c8f5cdbbf5cac6ea1da8ad7bf8660ede7c56cea3f55bb10771c02e23fac6342718057eabf9a6765b28449b3bf34e1107c384ad9bf8cb21e823d20dbbfcec4c580bf04d73fc2835478aab1da3fb28d1d814ae0dc3f29000000000000006350ef2e654a72dc3e482745143defdbbe76caf9ffffffefbf1baa2b45bfbacb3f2496c1256010de3f",
    "6300000000000000000000000000000000000000000000f03f000000000000f0bf000000000000f0bf",
    "757100000000000000650000000000000000c778e98be4d4eebfa259c2f9d822d13f000000000000f0bf40bd338edd5d6e3c5f7ffaef6f518b3cc9ebf07c755a8cbca259c2f9d822d1bfc778e98be4d4eebff6b24b80a190e7bff6b24b80a190e7bf000000000000000073fb9c3d3402ed3f73fb9c3d3402ed3f5b0000000000000069290000000000000063fad8b31b2720ea3e43afb83b808aff3e7028b7ffffffefbffeffffffffffff3f182d4454fb21f93f210000000000000062c9dea6662d03f73f277efc9af244cc3f80d887eebf04d8bf0000000000000000",
    "65000000000000f0bf000000000000008000000000000000800000000000000000000000000000f03f000000000000000000000000000000800000000000000080000000000000f0bf000000000000004000000000000000400000000000000000000000000000f07f000000000000f07f",
    "62d4a4c570fe3ad63f00000000000000002008639d3bb8d9bf182d4454fb21f93f",
    "62e21d43ceb562fc3d966d53717a730a400849845c38b0dabf182d4454fb21f93f",
    "65a5fa38c0a3f8d6bfa9de61cbf2b2d1bf6bb3a4f0ce86ecbf50dbe70b0eafe43f8f7102b113b1e33f925d1a2a90dfdcbfafcdfae3f48be5bf4b694ef6d19ee73f13886f16a490a53ff406e29ff9fdefbf87725e4c1ebef6bf4648ec455cb4e13fabdcfad9ace7f83fdc55f73ee7931a40",
    "70c11197f3c487edbf13d8664e3f2fd8bf1e10ca99a128b33fed56908e8ec2e9bf1c313899e1b2e13fafff4ea06779cb3fb0ca7f597c40edbf633d14c692b5923fd7f03dbff9ebd9bf",
    "6300000000000000000000000000000000000000000000f03f0000000000001040182d4454fb210940",
    "7571000000000000006500000000000000004cbf8cfd70bee6bf6532f44ca482e63f000000000000f0bfef68c2616cd5ecbdb954196e0522edbd85363e189b7ef43d6532f44ca482e6bf4cbf8cfd70bee6bfc7a5e4e6d6f6eabfc7a5e4e6d6f6eabf0000000000000000d7b4a1e1e5f1f13fd7b4a1e1e5f1f13f21000000000000006200000000000000000000000000000000182d4454fb21f93f182d4454fb21f93f",
    "65accb438849f9d23f8bf54cff9455eabfb8b827d12e04dfbf8024613c848eee3fa1d307f978ead03f57fea2422452c13f62267d9b572291bf061567bbab17e03fcfb050216fa7ebbf76c403037a20e6bfed30f05f462be6bfdbf2f0a6e4ddac3ff380cca3587dea3f059e0963908fea3f",
    "62000000000000f87f000000000000f87f000000000000f03f0000000000000000",
    "7529000000000000006300000000000000000000000000000000000000000000f03f000000000000f0bf000000000000f0bf210000000000000062172d4454fb21194000000000000000008c75887b0cb8dcbf182d4454fb21f93f",
    "620000000000000000172d4454fb2119401cb797330e43ecbf20139e5454dab73f",
    "6337908f5d84ee043e689a84737b2eee3f196f60f76244d5bf00000000000000000000000000000000",
    "6596c62b118083ef3f4a400db01e3bc63f001f06f259761abfb9c719161e3bc6bfeb1ae4d47f83ef3f93b5752f5296403f494f8e3cb08d28bf39e15fb26e853f3f1e1c7bb8ffffefbf48e203ab22f9d3bf5012ab9f8831f0bf701ed6c65534f33fc7a7446bdda5d43f8f5785161698f93f",
    "705641b8cdf30adf3f50044b0dfc97d83f041e10461923e93f654a74b8c3f1e83f21003753fedbd03f7677cfbd862fe23f9072250cd101db3f51347d29f57edc3feb465e508245e93f",
    "65de3af10acdc1de3f0000000000000000220918d7fc0fec3f02ac7dd8b42e09be000000000000f0bf4163d9abb999fb3d220918d7fc0fec3f75c813a044b70cbede3af10acdc1debf6e94f711b302f0bf6e94f711b302f0bf00000000000000008a10a11166f4f83f8a10a11166f4f83f",
    "697b00000000000000692100000000000000620000000000000000172d4454fb2119400000000000000000182d4454fb21f93f490000000000000070553216576518c63faa6ad2b1744befbf3d1a01075411be3f273170d3bc5790bfe8e263dd58d8eebf744a48e31002d13f054285788b8bc2bf35f753eec3daeebfe85cde1f006dcc3f290000000000000063fdf6df84bbcaa53d969a5f6e66a19c3d000000000000f0bf1c5608d84b8d0040f32bd3594eaff93f",
    "70c193d38f3d1991bf6c62d8346e57e5bfd60630098cd6e73f16927339c42fba3f34e42129b748eabfb5dac65adaf4e13ff8300219bb94d53fceb7368cb18febbf14f021f47b53d83f4603d4b23e2de43f89e0b0246a1fe7bf3e9f3a921e23d23f",
    "709af8743502a0ed3fedbdedd9dcb2d53f566fadbaf368c53f79797b8112a0ed3f727b6ca397b2d53fb3443880a368c53f5b4c30c41aa0ed3f8c59244c9fb2d53f8150268acd67c53fd2374af015a0ed3f01af4386c9b2d53f35e4273a8d67c53f",
    "65ddd34e96d08fecbfbe13390e29dcdc3ff1935dcbcede023ebe13390e29dcdc3fddd34e96d08fec3fbc4b242c97490fbe523102cc96f30e3e5a9cb7989c6a033e000000000000f03fa4dc97338c59debf054b784eace4f0bfbe83d07c8f4bf03fafafe070cb6ce03f84183a8e0946fc3f",
    "703f2adef6a938c53fc296ad975824ee3f20d291fd3eb0d2bf3264c3f5e105db3fda92e51a27cac83fe851a5f97a56ecbf8b335c479c10c43f69bdaea0ec67ec3f99d318b35bb5dbbf",
    "7035219c6b374adebff40365861ec2c83f75ecafec5280eb3fb67d65f30981dcbff65974b9944fa43f411c28df739fec3fb604d7cbe57da3bf4a05a496ec3ce0bfc7172df60f8ceb3f0fec73b48700d43f3ec90b184cb7d9bff95a53c12a8beb3f45c3e1b7a78ec23fb5b02fa39e8ce03fdadbfe9117feea3f",
    "701d29687be374e9bf027089c5afa7c53f1591bac85d9ee2bf1d29687be374e9bf33c9f048410ecfbf547e2f6379c4e1bf1d29687be374e9bf2ce08d503d52e3bf422735352c0daa3f1d29687be374e9bf426a45bc951be0bfe555d6e45396d53f",
    "63d850f849a9cee63faf97ae573d23d23f695eb9dd5388e4bf0297e4253726ff3fd30e539e13b5f83f",
    "65000000000000000083c4df07a2d8efbf425051a32d11b9bf1690016adcfeefbfbf91233973c05a3f44aa6dca44fe90bf365ead6c4613913f92fe9a394910b93f8e6398d87fd7efbf283d8e86d0fde93f283d8e86d0fde93f0000000000000000eff5784ff3e1f03feff5784ff3e1f03f",
    "6500000000000000000000000000000080000000000000f03f0000000000000080000000000000f0bf0000000000000000000000000000f03f00000000000000800000000000000080e875c9b2642dcf3fe875c9b2642dcf3f000000000000000024a8210a12cfcf3f24a8210a12cfcf3f",
    "63c626e703a294d4bf7af37d22fdaed03f3b379c482321ed3fb819049cdd86ef3fe7e06e02449ef03f",
    "650000000000000080fcffffffffffef3f4687264b230a613efcffffffffffefbfa3e5f91d62bad03c6b93a1fc386a5fbe7093a1fc386a5fbe4487264b230a61bef8ffffffffffef3f7345ece0bd91e83f7345ece0bd91e83f000000000000000080819a8d7be4ee3f80819a8d7be4ee3f",
    "65000000000000f03f000000000000000000000000000000000000000000000000000000000000f03f000000000000000000000000000000000000000000000000000000000000f03f00000000000000c000000000000000c00000000000000000000000000000f07f000000000000f07f",
    "70000000000000f03f000000000000000000000000000000000000000000000000000000000000f03f000000000000000000000000000000000000000000000000000000000000f03f",
    "620000000000000000182d4454fb211940182d4454fb21f9bf182d4454fb21f93f",
    "65c208a64149c9e5bf49b0c3843a70e7bfeec4311ff5d5a0bd49b0c3843a70e7bfc208a64149c9e53f1d10b6e61f4b99bd451b1062a9b9a4bd1028c1b303c57dbd000000000000f03f488d9d8d1a10cf3f4a6dad2308b9e93fd22a8f5939b0f33fbf598d9bfaafcf3f1c39b9c1e799f03f",
    "70cef513ef7be0ea3f12443d0e6b6151bf2480b257175ee13fc8be9d2c6ce5ea3f596a029d45ed63bff80f78396756e13ff863d9f098edea3f68f439bd0f414dbff6982f02bc49e13fb224f5aeb7e5ea3fbb4bf3bb2779613f5f771db9f455e13f",
    "65000000000000f0bf00000000000000002b21527f920f0fbea4d11d00fd7924bc000000000000f0bf9cf3b4d87c18053e2b21527f920f0fbe9cf3b4d87c18053e000000000000f03f182d4454fb21f9bf182d4454fb21f9bf0000000000000000b5cd317c96024d43b5cd317c96024d43",
    "639608ceedb475e3bf328db1d6a9e6e43f4c1bda3264e0dc3f95596d8ac9dd303f2a1e2c167a6d903f",
    "6388506b5f2304e2bfadd340de4a72eabfb1765f9a3d3e5b3f4236fd4515f6a03f805984de5954c73f",
    "6300000000000000000000000000000000000000000000f0bff474363e6f728b3fae2b242c1ca7bd3f",
    "63000000000000f0bf000000000000000000000000000000004e991d5350cf0d40717759dfc8e50440",
    "6378293cc97422d2bfd5c723f6eee9e5bf089c1c4af27be5bf3d783f643c180f40d59c0795bd6d0640",
    "65fdcfe8082338e3bf000000000000000079c1ccfae495e93f460d44c0ab77cbbf1f6fc1f470d3eebf2a97fc6709a2c4bf28b4485995a5e83f54d683d7472dd1bfbcd9d7d69e83e23f148072d9d10af5bf148072d9d10af5bf0000000000000000bedc9093829b0e40bedc9093829b0e40",
    "630ca5163f39b3e8bf851e729278d7e03f751dd7749ad3d63f000000000000f0bffe6e15b36109d9bf",
    "65151b3ed605c4da3f0000000000000000cf8b6ea93011ed3fdf15ff3cd302d9bfaa684d0715e3ecbff5ca3838df07c73fcaa45c9f4f3dea3faf6f3e6add88dbbf5c959d3b7529d8bf00000000000000000000000000000000000000000000000000000000000000000000000000000000",
    "62cfa2ef00a4da1440193d776573e31840182d4454fb21f9bfac6d97a9be85efbf",
    "630000000000000000000000000000f0bf000000000000000028c774bc52e70b409249926043470340",
    "624ed583d09396fb3fc04e17e0a396fb3f601f14b5bcb3f13f7015a4e6c3b3f13f",
    "6213cd34973bdf154013cd34973bdf1540182d4454fb21f93f182d4454fb21f93f",
    "620000000000000000182d4454fb211940182d4454fb21f9bfcd85726310aae53f",
    "63826f3891fbf5bd3e9139166d080ce33ebe1cfaffffffef3f1805aca9b382d63f9ba540b99244e33f",
    "62c8c4974757b81140c01bd67e4ddac73f205727106c9ccbbf182d4454fb21f93f",
    "62e37f5ba9443bd43fe37f5ba9443bd43f182d4454fb21f9bf182d4454fb21f9bf",
    "62172d4454fb211940172d4454fb211940709b8aad0ba4eabf709b8aad0ba4eabf",
    "6202dd67381b0a124002dd67381b0a1240182d4454fb21f9bf910bfeb682d9e3bf",
    "63f9a306c50054eb3ff59cc299932e0cbedd9604dd04a6e0bf00000000000000000000000000000000",
    "63cc3b7f669ea0e63f0000000000000000cc3b7f669ea0e63f00000000000000000000000000000000",
    "62172d4454fb211940172d4454fb211940182d4454fb21f9bf182d4454fb21f9bf",
    "6381a8c79555f0debfe98134cc9600ecbfd533a920d42198bffe02875ed525f43fd7a6d2c3e00ff33f",
    "63ba0c4a28ccd4f93d746d21042a96ee3ffe7442378ecfd23f369be02727f400400effa98e4716fa3f",
};
