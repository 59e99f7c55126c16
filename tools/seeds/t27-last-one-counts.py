PROPERTY = "C27"
NEEDS = "several files of which one cannot be created, and not the last one to be tried"
BREAKS = "a file that can be created makes up for another that cannot: a missing target is not reported"
EDITS = [("src/streaming/sink.creator.cpp", """                         if (all_successful) {
                             *psink = std::make_unique<FileSink>(filename);
                         }
                         success = true;
                     } catch (const std::exception& exc) {
                         err = "Failed to create file '" + filename +
                               "': " + exc.what();
                     }

                     all_successful.fetch_and((char)success);
                     latch.count_down();

                     return success;
                 }),
               "Failed to push job to thread pool.");
    }

    latch.wait();

    return (bool)all_successful;
}

bool
zarr::SinkCreator::make_files_(
""", """                         *psink = std::make_unique<FileSink>(filename);
                         success = true;
                     } catch (const std::exception& exc) {
                         err = "Failed to create file '" + filename +
                               "': " + exc.what();
                     }

                     all_successful = (char)success;
                     latch.count_down();

                     return success;
                 }),
               "Failed to push job to thread pool.");
    }

    latch.wait();

    return (bool)all_successful;
}

bool
zarr::SinkCreator::make_files_(
""")]
DEMO = r'''
using namespace kit;
#include "sink.creator.hh"
#include "zarr.common.hh"
int main()
{
    auto pool = std::make_shared<zarr::ThreadPool>(1, [](const std::string&) {});
    for (int bad : { -1, 3, 0 }) {
        const std::string base = "data" + std::to_string(bad);
        fs::create_directories(base + "/0");
        if (bad >= 0)
            fs::create_directories(base + "/0/" + std::to_string(bad)); // a directory where the file should be
        std::vector<ZarrDimension> d{ { "t", ZarrDimensionType_Time, 0, 1, 1 }, { "y", ZarrDimensionType_Space, 4, 4, 1 }, { "x", ZarrDimensionType_Space, 4, 1, 1 } };
        ArrayDimensions dims(std::move(d), ZarrDataType_uint8);
        std::vector<std::unique_ptr<zarr::Sink>> sinks;
        zarr::SinkCreator creator(pool, nullptr);
        const bool ok = creator.make_data_sinks(base, &dims, zarr::chunks_along_dimension, sinks);
        check(ok == (bad < 0), bad < 0 ? "failed" : "file " + std::to_string(bad) + " cannot be created, but this was not reported");
    }
}
'''
