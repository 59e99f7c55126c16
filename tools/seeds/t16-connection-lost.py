PROPERTY = "C16"
NEEDS = "as many failing uploads as there are connections"
BREAKS = "a connection whose upload fails does not go back to the pool; when all are gone the next request waits for ever"
EDITS = [("src/streaming/s3.sink.cpp", """        nbytes_flushed_ = nbytes_buffered_;
        nbytes_buffered_ = 0;
    } catch (const std::exception& exc) {
        LOG_ERROR("Error: ", exc.what());
    }

    // cleanup
    connection_pool_->return_connection(std::move(connection));

    return retval;
}

bool
zarr::S3Sink::is_multipart""", """        nbytes_flushed_ = nbytes_buffered_;
        nbytes_buffered_ = 0;

        // cleanup
        connection_pool_->return_connection(std::move(connection));
    } catch (const std::exception& exc) {
        LOG_ERROR("Error: ", exc.what());
    }

    return retval;
}

bool
zarr::S3Sink::is_multipart""")]
DEMO = r'''
using namespace kit;
int main()
{
    alarm(60); // ends a process that hangs
    auto& sv = fakes3::Server::get();
    Cfg c;
    c.s3 = true;
    c.path = "store";
    c.dims = { { "t", ZarrDimensionType_Time, 0, 1 }, { "y", ZarrDimensionType_Space, 64, 4 }, { "x", ZarrDimensionType_Space, 64, 4 } };
    auto px = pattern(4096);
    auto* s = open(c);
    check(s, "stream not created");
    sv.faults = { fakes3::Fault{ "put", 0, -1, false, 503 } }; // 256 objects cannot be stored
    append(s, px.data(), px.size());
    ZarrStream_destroy(s);
}
'''
